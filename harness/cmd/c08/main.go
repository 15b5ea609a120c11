// C08: addition-sequence algorithms return a valid chain with every target.
package main

import (
	"fmt"
	"math/big"
	"slices"
	"sort"
	"strings"

	"pgregory.net/rapid"

	"github.com/mmcloughlin/addchain/verif/algs"
	"github.com/mmcloughlin/addchain/verif/gens"
	"github.com/mmcloughlin/addchain/verif/pbt"
	"github.com/mmcloughlin/addchain/verif/ref"
)

// seq is one or more calls of one algorithm instance.
type seq struct {
	Alg string `json:"alg"`
	// Calls are the target lists given to the same instance in turn.
	Calls [][]*big.Int `json:"calls"`
	// Spare capacity of the slice passed in.
	Spare int `json:"spare,omitempty"`
	// Alias passes the same big.Int object for repeated values.
	Alias bool   `json:"alias,omitempty"`
	Note  string `json:"note,omitempty"`
}

func partial(name string) bool { return slices.Contains(algs.PartialNames, name) }

func (s *seq) Check(r *pbt.Rec) error {
	a := algs.Seq(s.Alg)
	maxBits := algs.SeqMaxBits(s.Alg)
	var results, copies [][]*big.Int
	mine := map[*big.Int]bool{} // objects of the caller
	last := -1
	r.Class("alg:%s", s.Alg)
	if s.Note != "" {
		r.Class("source:%s", s.Note)
	}
	for ci, targets := range s.Calls {
		if len(targets) == 0 {
			return pbt.ErrInvalid
		}
		for _, x := range targets {
			if x.Sign() <= 0 || x.BitLen() > maxBits {
				return pbt.ErrInvalid
			}
		}
		arg := make([]*big.Int, 0, len(targets)+s.Spare)
		for i, x := range targets {
			y := new(big.Int).Set(x)
			if s.Alias {
				if k := indexOf(targets[:i], x); k >= 0 {
					y = arg[k]
				}
			}
			arg = append(arg, y)
		}
		objs := slices.Clone(arg)
		c, err := a.FindSequence(arg)
		where := func() string { return fmt.Sprintf("%s, call %d, targets %s", s.Alg, ci, short(targets)) }
		// The caller's integers. The list may have been reordered.
		for i := range objs {
			if objs[i].Cmp(targets[i]) != 0 {
				return fmt.Errorf("%s: target %v was changed to %v", where(), targets[i], objs[i])
			}
		}
		if len(arg) != len(targets) || !sameMultiset(arg, targets) {
			return fmt.Errorf("%s: the caller's list became %s", where(), short(arg))
		}
		if err != nil {
			if partial(s.Alg) {
				r.Class("partial:failed")
				continue
			}
			return fmt.Errorf("%s: error %v", where(), err)
		}
		if partial(s.Alg) {
			r.Class("partial:succeeded")
		}
		if err := solves(c, targets); err != nil {
			return fmt.Errorf("%s: %w", where(), err)
		}
		for _, x := range objs {
			mine[x] = true
		}
		last = ci
		results, copies = append(results, c), append(copies, ref.Clone(c))
		for i := range results {
			if !ref.Equal(results[i], copies[i]) {
				return fmt.Errorf("%s: the chain of call %d was %s and became %s", where(), i, short(copies[i]), short(results[i]))
			}
		}
		d := distinct(targets)
		if d >= 2 {
			r.NonTrivial()
		}
		switch {
		case len(targets) > d:
			r.Class("repeats")
		case !slices.IsSortedFunc(targets, func(a, b *big.Int) int { return a.Cmp(b) }):
			r.Class("unordered")
		default:
			r.Class("ascending")
		}
		if ci > 0 {
			r.Evals(1)
		}
	}
	if last < 0 {
		return nil
	}
	// A result belongs to the caller, who may change it. (It may contain the target objects.)
	for _, c := range results {
		for _, x := range c {
			if !mine[x] {
				x.SetInt64(-7)
			}
		}
	}
	for i := 0; i < 2; i++ {
		c, err := a.FindSequence(ref.Clone(s.Calls[last]))
		if err == nil {
			err = solves(c, s.Calls[last])
		} else if partial(s.Alg) {
			err = nil
		}
		if err != nil {
			return fmt.Errorf("%s, targets %s: %s; when its earlier results have been overwritten: %w", s.Alg, short(s.Calls[last]), short(copies[len(copies)-1]), err)
		}
		a = algs.Seq(s.Alg)
	}
	r.Evals(2)
	return nil
}

// solves reports whether c is a valid chain with all targets.
func solves(c, targets []*big.Int) error {
	if err := ref.CheckChain(c); err != nil {
		return fmt.Errorf("not a valid chain: %v: %s", err, short(c))
	}
	have := map[string]bool{}
	for _, x := range c {
		have[x.Text(62)] = true
	}
	for _, x := range targets {
		if !have[x.Text(62)] {
			return fmt.Errorf("the chain lacks target %v: %s", x, short(c))
		}
	}
	return nil
}

func indexOf(l []*big.Int, x *big.Int) int {
	for i := range l {
		if l[i].Cmp(x) == 0 {
			return i
		}
	}
	return -1
}

func distinct(l []*big.Int) int {
	m := map[string]bool{}
	for _, x := range l {
		m[x.Text(62)] = true
	}
	return len(m)
}

func sameMultiset(a, b []*big.Int) bool {
	for _, x := range a {
		if x == nil {
			return false
		}
	}
	sorted := func(l []*big.Int) []*big.Int {
		l = slices.Clone(l)
		sort.Slice(l, func(i, j int) bool { return l[i].Cmp(l[j]) < 0 })
		return l
	}
	return ref.Equal(sorted(a), sorted(b))
}

func short(c []*big.Int) string {
	s := fmt.Sprint(c)
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return s
}

func (s *seq) Shrinks() []pbt.Case {
	var out []pbt.Case
	add := func(calls [][]*big.Int) {
		out = append(out, &seq{Alg: s.Alg, Calls: calls, Spare: s.Spare, Alias: s.Alias})
	}
	for i := range s.Calls {
		if len(s.Calls) > 1 {
			add(slices.Delete(slices.Clone(s.Calls), i, i+1))
		}
		for k := range s.Calls[i] {
			if len(s.Calls[i]) > 1 {
				c := slices.Clone(s.Calls)
				c[i] = slices.Delete(slices.Clone(c[i]), k, k+1)
				add(c)
			}
			for _, x := range gens.ShrinkInt(s.Calls[i][k]) {
				c := slices.Clone(s.Calls)
				c[i] = slices.Clone(c[i])
				c[i][k] = x
				add(c)
			}
		}
	}
	return out
}

var all = append(slices.Clone(algs.SeqNames), algs.PartialNames...)

// list draws a non-empty list of values below 2^maxBits.
func list(t *rapid.T, maxBits int) ([]*big.Int, string) {
	style := gens.Pick(t, "list", "family", "dictionary", "close", "multiples", "residues", "lengths", "powers", "small", "halving")
	n := gens.Uni(t, "n", 1, gens.Pick(t, "len", 3, 6, 12))
	if maxBits > 300 && n > 8 {
		n = 8
	}
	var l []*big.Int
	push := func(x *big.Int) {
		x = new(big.Int).Set(x)
		if x.BitLen() > maxBits {
			x.Rsh(x, uint(x.BitLen()-maxBits))
		}
		if x.Sign() <= 0 {
			x.SetInt64(1)
		}
		l = append(l, x)
	}
	small := func(name string, hi int) *big.Int { return big.NewInt(int64(gens.Int(t, name, 1, hi))) }
	base := func() *big.Int {
		x, _ := gens.Target(t, maxBits, 2, 3, 7, 8)
		return x
	}
	switch style {
	case "family":
		for len(l) < n {
			push(base())
		}
	case "dictionary": // odd windows of a common width, as dictionary methods ask for
		w := gens.Uni(t, "w", 2, min(maxBits, gens.Pick(t, "wmax", 4, 8, 16, 40)))
		r := gens.Rand(t)
		for len(l) < n {
			x := gens.Bits(r, 1+r.IntN(w))
			push(x.SetBit(x, 0, 1))
		}
	case "close": // values within a small distance of each other
		x := base()
		for len(l) < n {
			push(new(big.Int).Add(x, small("d", 12)))
		}
	case "multiples": // q*previous + r with small parts: continued fractions
		x := small("x", 9)
		for len(l) < n {
			push(x)
			x = new(big.Int).Mul(x, small("q", gens.Pick(t, "qmax", 3, 9, 70)))
			x.Add(x, big.NewInt(int64(gens.Int(t, "r", 0, 4))))
			if x.BitLen() > maxBits {
				break
			}
		}
	case "residues": // a value, a divisor-like value and the remainder
		for len(l) < n {
			x := base()
			y := base()
			push(x)
			push(y)
			if x.Cmp(y) > 0 {
				push(new(big.Int).Mod(x, y))
				push(new(big.Int).Div(x, y))
			}
		}
	case "lengths": // run lengths
		for len(l) < n {
			push(big.NewInt(int64(gens.Uni(t, "x", 1, gens.Pick(t, "max", 8, 64, 521, 1023)))))
		}
	case "powers":
		for len(l) < n {
			x := new(big.Int).Lsh(ref.One, uint(gens.Uni(t, "e", 0, maxBits-1)))
			if gens.Uni(t, "near", 0, 2) == 0 {
				x.Add(x, big.NewInt(int64(gens.Uni(t, "c", -2, 2))))
			}
			push(x)
		}
	case "small":
		for len(l) < n {
			push(small("x", gens.Pick(t, "max", 4, 12, 40, 200, 1000)))
		}
	case "halving": // values and their truncations
		x := base()
		for len(l) < n {
			push(x)
			x = new(big.Int).Rsh(x, uint(gens.Uni(t, "s", 1, 6)))
			if gens.Uni(t, "add", 0, 1) == 0 {
				x.Add(x, small("c", 3))
			}
			if x.Sign() == 0 {
				break
			}
		}
	}
	// Repeats, 1 and 2, order.
	for i, k := 0, gens.Pick(t, "extra", 0, 0, 1, 2, 3); i < k; i++ {
		switch gens.Uni(t, "what", 0, 3) {
		case 0:
			push(big.NewInt(1))
		case 1:
			push(big.NewInt(2))
		default:
			push(l[gens.Uni(t, "dup", 0, len(l)-1)])
		}
	}
	switch gens.Uni(t, "order", 0, 3) {
	case 0:
		sort.SliceStable(l, func(i, j int) bool { return l[i].Cmp(l[j]) < 0 })
	case 1:
		sort.SliceStable(l, func(i, j int) bool { return l[i].Cmp(l[j]) > 0 })
	default:
		r := gens.Rand(t)
		r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	}
	return l, style
}

func genWith(names []string, bits ...int) func(t *rapid.T) pbt.Case {
	return func(t *rapid.T) pbt.Case {
		s := &seq{Alg: gens.Pick(t, "alg", names...)}
		maxBits := min(gens.Pick(t, "maxbits", bits...), algs.SeqMaxBits(s.Alg))
		l, style := list(t, maxBits)
		s.Note = style
		s.Calls = [][]*big.Int{l}
		if gens.Uni(t, "again", 0, 5) == 0 {
			l2, _ := list(t, maxBits)
			s.Calls = append(s.Calls, l2)
			if gens.Uni(t, "third", 0, 2) == 0 {
				s.Calls = append(s.Calls, ref.Clone(l))
			}
		}
		s.Spare = gens.Pick(t, "spare", 0, 0, 1, 2, 8)
		s.Alias = rapid.Bool().Draw(t, "alias")
		return s
	}
}

func logarithmic() []string {
	var out []string
	for _, n := range all {
		if algs.SeqMaxBits(n) > 1024 {
			out = append(out, n)
		}
	}
	return out
}

// enumLists enumerates lists of length n over 1..m; when sets is true only
// strictly increasing ones.
func enumLists(e *pbt.Enum, n int, m int64, sets bool) {
	l := make([]int64, n)
	var rec func(k int) bool
	rec = func(k int) bool {
		if k == n {
			if !e.Mine() {
				return true
			}
			for _, a := range all {
				vals := ref.Big(l)
				ok := true
				for _, x := range vals {
					if x.BitLen() > algs.SeqMaxBits(a) {
						ok = false
					}
				}
				if ok && !e.Do(&seq{Alg: a, Calls: [][]*big.Int{vals}, Spare: int(l[0]) % 3}) {
					return false
				}
			}
			return true
		}
		lo := int64(1)
		if sets && k > 0 {
			lo = l[k-1] + 1
		}
		for v := lo; v <= m; v++ {
			l[k] = v
			if !rec(k + 1) {
				return false
			}
		}
		return true
	}
	rec(0)
}

// ladder takes regular target lists of growing length.
func ladder(e *pbt.Enum) {
	turn := 0
	gens.Steps(pbt.Pick(e.Tier, 40, 80), pbt.Pick(e.Tier, 65, 130), func(n int) bool {
		var count, odd, down, powers, ones, near, fib, spread, rep []*big.Int
		a, b := big.NewInt(1), big.NewInt(2)
		for i := 1; i <= n; i++ {
			count = append(count, big.NewInt(int64(i)))
			odd = append(odd, big.NewInt(int64(2*i+1)))
			down = append(down, big.NewInt(int64(n+1-i)))
			p := new(big.Int).Lsh(ref.One, uint(i))
			powers = append(powers, p)
			ones = append(ones, ref.Ones(uint(i)))
			near = append(near, new(big.Int).Add(p, big.NewInt(int64(i%5))))
			fib = append(fib, new(big.Int).Set(b))
			a, b = b, new(big.Int).Add(a, b)
			spread = append(spread, big.NewInt(int64(i*i+7)))
			rep = append(rep, big.NewInt(int64(i%7+2)))
		}
		lists := [][]*big.Int{count, odd, down, powers, ones, near, fib, spread, rep, {ref.Ones(uint(8 * n))}, {new(big.Int).Lsh(ref.One, uint(8*n)), big.NewInt(int64(n))}}
		for k, l := range lists {
			for _, name := range all {
				turn++
				if e.Tier == pbt.Quick && n > 12 && turn%3 != 0 {
					continue
				}
				top := l[0]
				for _, x := range l {
					if x.Cmp(top) > 0 {
						top = x
					}
				}
				if top.BitLen() > algs.SeqMaxBits(name) {
					continue
				}
				if e.Mine() && !e.Do(&seq{Alg: name, Calls: [][]*big.Int{l, count}, Spare: (n + k) % 3, Note: "ladder"}) {
					return false
				}
			}
		}
		return true
	})
}

func main() {
	for _, n := range algs.PartialNames {
		if !strings.HasPrefix(n, "h:") {
			panic(n)
		}
	}
	pbt.Main(&pbt.Spec{
		ID:   "C08",
		Rule: "A case is a sequence algorithm and one or more target lists given to the same instance; it is non-trivial when a list has at least two distinct targets. Oracle: own chain predicate, membership of every target, no error (except for partial heuristics), the caller's integers unchanged as objects and the caller's list unchanged as a multiset.",
		Assumptions: []string{
			"Documented input-size ranges: strategies documented as unsuitable for large inputs and heuristics without halving are exercised up to 5 (total), 10 (delta/approximation alone), 11 (dyadic) and 15 (fermat) bits, all others up to 1024 bits.",
			"Reordering the caller's list is permitted (the statement speaks of integer values).",
		},
		Kinds: map[string]func() pbt.Case{"seq": func() pbt.Case { return &seq{} }},
		Sections: []pbt.Section{
			{Name: "single-values", Enum: func(e *pbt.Enum) { enumLists(e, 1, int64(pbt.Pick(e.Tier, 2100, 4200)), false) }},
			{Name: "all-pairs", Enum: func(e *pbt.Enum) { enumLists(e, 2, int64(pbt.Pick(e.Tier, 80, 140)), false) }},
			{Name: "all-triples", Enum: func(e *pbt.Enum) { enumLists(e, 3, int64(pbt.Pick(e.Tier, 16, 24)), false) }},
			{Name: "triple-sets", Enum: func(e *pbt.Enum) { enumLists(e, 3, int64(pbt.Pick(e.Tier, 36, 62)), true) }},
			{Name: "all-quadruples", Enum: func(e *pbt.Enum) { enumLists(e, 4, int64(pbt.Pick(e.Tier, 7, 10)), false) }},
			{Name: "small-subsets", Enum: func(e *pbt.Enum) {
				for n := 4; n <= 7; n++ {
					enumLists(e, n, int64(pbt.Pick(e.Tier, 11, 16)), true)
				}
			}},
			{Name: "ladder", Enum: ladder},
			{Name: "random-small", Fuzz: 90, N: 200000, Gen: genWith(all, 4, 6, 8, 12, 16)},
			{Name: "random-medium", Fuzz: 90, N: 80000, Gen: genWith(all, 16, 24, 40, 64, 65, 100)},
			{Name: "random-large", N: 12000, Gen: genWith(logarithmic(), 128, 256, 257, 521, 1024), Seconds: 120},
		},
	})
}
