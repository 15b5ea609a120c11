// C18: program builders reject bad operands; program analyses match their definitions.
package main

import (
	"fmt"
	"math"
	"math/big"
	"slices"

	"github.com/mmcloughlin/addchain"
	"pgregory.net/rapid"

	"github.com/mmcloughlin/addchain/verif/gens"
	"github.com/mmcloughlin/addchain/verif/pbt"
	"github.com/mmcloughlin/addchain/verif/ref"
)

// call of a builder: F is add, double or shift.
type call struct {
	F string `json:"f"`
	I int    `json:"i"`
	J int    `json:"j,omitempty"`
	S uint   `json:"s,omitempty"`
}

type history struct {
	Calls []call `json:"calls"`
}

func (h *history) Check(r *pbt.Rec) error {
	var p addchain.Program
	var model []ref.Op
	accepted, rejected := 0, 0
	for k, c := range h.Calls {
		ok := func(i int) bool { return i >= 0 && i <= len(model) }
		valid := ok(c.I)
		before := slices.Clone(p)
		var got int
		var err error
		switch c.F {
		case "add":
			valid = valid && ok(c.J)
			got, err = p.Add(c.I, c.J)
		case "double":
			got, err = p.Double(c.I)
		case "shift":
			if c.S == 0 {
				return pbt.ErrInvalid
			}
			got, err = p.Shift(c.I, c.S)
		default:
			return pbt.ErrInvalid
		}
		if (err == nil) != valid {
			return fmt.Errorf("call %d %+v on a program of %d operations: error %v", k, c, len(model), err)
		}
		if !valid {
			rejected++
			if !slices.Equal(before, p) {
				return fmt.Errorf("call %d %+v was rejected but changed the program from %v to %v", k, c, before, p)
			}
			continue
		}
		accepted++
		switch c.F {
		case "add":
			model = append(model, ref.Op{I: c.I, J: c.J})
		case "double":
			model = append(model, ref.Op{I: c.I, J: c.I})
		case "shift":
			i := c.I
			for s := uint(0); s < c.S; s++ {
				model = append(model, ref.Op{I: i, J: i})
				i = len(model)
			}
		}
		if got != len(model) {
			return fmt.Errorf("call %d %+v returned index %d, the new last element is %d", k, c, got, len(model))
		}
		if err := sameOps(p, model); err != nil {
			return fmt.Errorf("after call %d %+v: %v", k, c, err)
		}
	}
	if err := analyses(p, model); err != nil {
		return err
	}
	r.Evals(len(h.Calls))
	if accepted > 1 && rejected > 0 || len(model) > 2 {
		r.NonTrivial()
	}
	if rejected > 0 {
		r.Class("with rejected calls")
	}
	r.Class("ops<=%d", (len(model)+15)/16*16)
	return nil
}

func sameOps(p addchain.Program, model []ref.Op) error {
	if len(p) != len(model) {
		return fmt.Errorf("program has %d operations, want %d: %v", len(p), len(model), p)
	}
	for i, op := range p {
		m := model[i]
		if !(op.I == m.I && op.J == m.J || op.I == m.J && op.J == m.I) {
			return fmt.Errorf("operation %d is %v, want %v", i, op, m)
		}
	}
	return nil
}

// analyses compares every analysis with its definition.
func analyses(p addchain.Program, model []ref.Op) error {
	n := len(model)
	c := []*big.Int(p.Evaluate())
	want, err := ref.Eval(model)
	if err != nil {
		return err
	}
	if len(c) != n+1 || !ref.Equal(c, want) {
		return fmt.Errorf("%v evaluates to %v, want %v", p, c, want)
	}
	doubles := 0
	for _, op := range model {
		if op.I == op.J {
			doubles++
		}
	}
	d, a := p.Count()
	if d != doubles || a != n-doubles || p.Doubles() != doubles || p.Adds() != n-doubles {
		return fmt.Errorf("%v: Count() = %d, %d, Doubles() = %d, Adds() = %d; want %d doubles, %d adds", p, d, a, p.Doubles(), p.Adds(), doubles, n-doubles)
	}
	counts := p.ReadCounts()
	if len(counts) != n+1 {
		return fmt.Errorf("%v: %d read counts for %d elements", p, len(counts), n+1)
	}
	for k := range counts {
		uses := 0
		for _, op := range model {
			if op.I == k || op.J == k {
				uses++
			}
		}
		if counts[k] != uses {
			return fmt.Errorf("%v: read count of element %d is %d, want %d", p, k, counts[k], uses)
		}
	}
	deps := p.Dependencies()
	if len(deps) != n+1 {
		return fmt.Errorf("%v: %d dependency sets for %d elements", p, len(deps), n+1)
	}
	for k := range deps {
		// Graph search from k.
		reach := make([]bool, n+1)
		stack := []int{k}
		reach[k] = true
		for len(stack) > 0 {
			x := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if x == 0 {
				continue
			}
			for _, y := range []int{model[x-1].I, model[x-1].J} {
				if !reach[y] {
					reach[y] = true
					stack = append(stack, y)
				}
			}
		}
		set := new(big.Int)
		for i, b := range reach {
			if b {
				set.SetBit(set, i, 1)
			}
		}
		if deps[k] == nil || deps[k].Cmp(set) != 0 {
			return fmt.Errorf("%v: dependencies of element %d are %b, want %b", p, k, deps[k], set)
		}
	}
	return sameOps(p, model)
}

func (h *history) Shrinks() []pbt.Case {
	var out []pbt.Case
	for i := range h.Calls {
		out = append(out, &history{Calls: slices.Delete(slices.Clone(h.Calls), i, i+1)})
		if h.Calls[i].S > 1 {
			d := slices.Clone(h.Calls)
			d[i].S--
			out = append(out, &history{Calls: d})
		}
	}
	return out
}

// operators checks Product and Plus on a pair of ascending chains and a member.
type operators struct {
	A []*big.Int `json:"a"`
	B []*big.Int `json:"b"`
}

func guarded(c []*big.Int) (addchain.Chain, func() error) {
	backing := make([]*big.Int, 0, len(c)+8)
	backing = append(backing, ref.Clone(c)...)
	ptr := slices.Clone(backing[:cap(backing)])
	return addchain.Chain(backing), func() error {
		if !ref.Equal(backing, c) || !slices.Equal(ptr, backing[:cap(backing)]) {
			return fmt.Errorf("argument %v was changed to %v (or its backing array was written)", c, backing)
		}
		return nil
	}
}

func (o *operators) Check(r *pbt.Rec) error {
	for _, c := range [][]*big.Int{o.A, o.B} {
		if ref.CheckChain(c) != nil || !ref.Ascending(c) {
			return pbt.ErrInvalid
		}
	}
	a, ua := guarded(o.A)
	b, ub := guarded(o.B)
	got := addchain.Product(a, b)
	if err := ua(); err != nil {
		return fmt.Errorf("Product(%v, %v): first %v", o.A, o.B, err)
	}
	if err := ub(); err != nil {
		return fmt.Errorf("Product(%v, %v): second %v", o.A, o.B, err)
	}
	if err := ref.CheckChain(got); err != nil {
		return fmt.Errorf("Product(%v, %v) = %v: %v", o.A, o.B, got, err)
	}
	end := new(big.Int).Mul(o.A[len(o.A)-1], o.B[len(o.B)-1])
	if got[len(got)-1].Cmp(end) != 0 {
		return fmt.Errorf("Product(%v, %v) = %v does not end at %v", o.A, o.B, got, end)
	}
	for _, m := range o.A {
		a, ua := guarded(o.A)
		x := new(big.Int).Set(m)
		got := addchain.Plus(a, x)
		r.Evals(1)
		if err := ua(); err != nil {
			return fmt.Errorf("Plus(%v, %v): %v", o.A, m, err)
		}
		if x.Cmp(m) != 0 {
			return fmt.Errorf("Plus(%v, %v) changed its argument to %v", o.A, m, x)
		}
		if err := ref.CheckChain(got); err != nil {
			return fmt.Errorf("Plus(%v, %v) = %v: %v", o.A, m, got, err)
		}
		end := new(big.Int).Add(o.A[len(o.A)-1], m)
		if got[len(got)-1].Cmp(end) != 0 {
			return fmt.Errorf("Plus(%v, %v) = %v does not end at %v", o.A, m, got, end)
		}
		// The member given as the chain's own element.
		if i := slices.IndexFunc(a, func(y *big.Int) bool { return y.Cmp(m) == 0 }); i >= 0 {
			got := addchain.Plus(a, a[i])
			if err := ua(); err != nil {
				return fmt.Errorf("Plus(%v, own element %v): %v", o.A, m, err)
			}
			if ref.CheckChain(got) != nil || got[len(got)-1].Cmp(end) != 0 {
				return fmt.Errorf("Plus(%v, own element %v) = %v", o.A, m, got)
			}
		}
	}
	// The same chain as both arguments.
	if ref.Equal(o.A, o.B) {
		got := addchain.Product(a, a)
		if err := ua(); err != nil {
			return fmt.Errorf("Product(a, a), a = %v: %v", o.A, err)
		}
		if ref.CheckChain(got) != nil || got[len(got)-1].Cmp(end) != 0 {
			return fmt.Errorf("Product(a, a) = %v, a = %v", got, o.A)
		}
	}
	if len(o.A) > 1 && len(o.B) > 1 {
		r.NonTrivial()
	}
	return nil
}

// long programs, beyond what counters of 16 bits hold.
type long struct {
	F string `json:"f"` // shift, add, dependencies
	N int    `json:"n"`
}

func (c *long) Check(r *pbt.Rec) error {
	if c.N < 1 || c.N > 200000 {
		return pbt.ErrInvalid
	}
	var p addchain.Program
	n := c.N
	switch c.F {
	case "shift":
		if got, err := p.Shift(0, uint(n)); err != nil || got != n || len(p) != n {
			return fmt.Errorf("Shift(0, %d) = %d, %v, %d operations", n, got, err, len(p))
		}
		for i, op := range p {
			if op.I != i || op.J != i {
				return fmt.Errorf("operation %d of Shift(0, %d) is %v", i, n, op)
			}
		}
	case "add", "dependencies":
		for i := 0; i < n; i++ {
			j, err := p.Add(i%2*i, (i+1)%2*i) // i and 0 in turn
			if err != nil || j != i+1 || len(p) != i+1 || p[i].I+p[i].J != i || p[i].I != 0 && p[i].J != 0 {
				return fmt.Errorf("call %d of Add: %d, %v, %d operations", i, j, err, len(p))
			}
		}
	default:
		return pbt.ErrInvalid
	}
	for _, i := range []int{-1, n + 1, n + 65536, 2*n + 1} {
		if _, err := p.Add(i, 0); err == nil || len(p) != n {
			return fmt.Errorf("Add(%d, 0) accepted with %d operations", i, n)
		}
		if _, err := p.Double(i); err == nil || len(p) != n {
			return fmt.Errorf("Double(%d) accepted with %d operations", i, n)
		}
		if _, err := p.Shift(i, 2); err == nil || len(p) != n {
			return fmt.Errorf("Shift(%d, 2) accepted with %d operations", i, n)
		}
	}
	doubles := n
	if c.F != "shift" {
		doubles = 1 // 1+1
	}
	if d, a := p.Count(); d != doubles || a != n-doubles || p.Doubles() != d || p.Adds() != a {
		return fmt.Errorf("%d operations with %d doubles: Count() = %d, %d", n, doubles, d, a)
	}
	counts := p.ReadCounts()
	if len(counts) != n+1 {
		return fmt.Errorf("%d read counts for %d elements", len(counts), n+1)
	}
	for k, got := range counts {
		want := 1
		if k == n {
			want = 0
		}
		if k == 0 && c.F != "shift" {
			want = n
		}
		if got != want {
			return fmt.Errorf("read count of element %d of %d is %d, want %d", k, n+1, got, want)
		}
	}
	if c.F == "add" {
		chain := p.Evaluate()
		if len(chain) != n+1 {
			return fmt.Errorf("%d elements for %d operations", len(chain), n)
		}
		for k, x := range chain {
			if !x.IsInt64() || x.Int64() != int64(k+1) {
				return fmt.Errorf("element %d is %v, want %d", k, x, k+1)
			}
		}
	}
	if c.F == "dependencies" {
		deps := p.Dependencies()
		if len(deps) != n+1 {
			return fmt.Errorf("%d dependency sets for %d elements", len(deps), n+1)
		}
		for k, d := range deps {
			if d.BitLen() != k+1 || d.TrailingZeroBits() != 0 || new(big.Int).Add(d, big.NewInt(1)).BitLen() != k+2 {
				return fmt.Errorf("dependencies of element %d are not 0..%d", k, k)
			}
		}
	}
	r.NonTrivial()
	return nil
}

func ascendings(maxLen int) [][]int64 {
	var out [][]int64
	v := []int64{1}
	var rec func()
	rec = func() {
		out = append(out, slices.Clone(v))
		if len(v) == maxLen {
			return
		}
		last := v[len(v)-1]
		for x := last + 1; x <= 2*last; x++ {
			if ref.CheckChain64(append(slices.Clone(v), x)) {
				v = append(v, x)
				rec()
				v = v[:len(v)-1]
			}
		}
	}
	rec()
	slices.SortStableFunc(out, func(a, b []int64) int { return len(a) - len(b) })
	return out
}

// enumCalls enumerates call sequences of exactly n calls. Operands range over
// -1..len+1 of the program at that point.
func enumCalls(e *pbt.Enum, n int) {
	calls := make([]call, 0, n)
	var rec func(length int) bool
	rec = func(length int) bool {
		if len(calls) == min(2, n) && !e.Mine() {
			return true
		}
		if len(calls) == n {
			return e.Do(&history{Calls: slices.Clone(calls)})
		}
		step := func(c call, ok bool, grow int) bool {
			calls = append(calls, c)
			l := length
			if ok {
				l += grow
			}
			r := rec(l)
			calls = calls[:len(calls)-1]
			return r
		}
		in := func(i int) bool { return i >= 0 && i <= length }
		for i := -1; i <= length+1; i++ {
			for j := -1; j <= length+1; j++ {
				if !step(call{F: "add", I: i, J: j}, in(i) && in(j), 1) {
					return false
				}
			}
			if !step(call{F: "double", I: i}, in(i), 1) {
				return false
			}
			for s := uint(1); s <= 2; s++ {
				if !step(call{F: "shift", I: i, S: s}, in(i), int(s)) {
					return false
				}
			}
		}
		return true
	}
	rec(0)
}

func genCalls(t *rapid.T) pbt.Case {
	n := gens.Uni(t, "n", 1, gens.Pick(t, "size", 6, 20, 60))
	h := &history{}
	length := 0
	idx := func(name string) int {
		switch gens.Uni(t, name+"kind", 0, 11) {
		case 0:
			return gens.Pick(t, name, -1, length+1, -2, length+2, math.MaxInt, math.MinInt, -length, -length-1, 1<<31, 1<<32)
		case 1, 2, 3:
			return length
		default:
			return gens.Uni(t, name, 0, length)
		}
	}
	for i := 0; i < n; i++ {
		c := call{F: gens.Pick(t, "f", "add", "add", "double", "shift"), I: idx("i")}
		grow := 1
		ok := c.I >= 0 && c.I <= length
		switch c.F {
		case "add":
			c.J = idx("j")
			ok = ok && c.J >= 0 && c.J <= length
		case "shift":
			c.S = uint(gens.Int(t, "s", 1, 70))
			grow = int(c.S)
		}
		if ok {
			length += grow
		}
		h.Calls = append(h.Calls, c)
	}
	return h
}

func ascending(t *rapid.T, name string) []*big.Int {
	c := []*big.Int{big.NewInt(1)}
	for i, n := 0, gens.Int(t, name, 0, 30); i < n; i++ {
		last := c[len(c)-1]
		x := new(big.Int).Add(c[gens.Uni(t, "i", 0, len(c)-1)], c[gens.Uni(t, "j", 0, len(c)-1)])
		if rapid.Bool().Draw(t, "star") || x.Cmp(last) <= 0 {
			x = new(big.Int).Add(last, c[gens.Uni(t, "k", 0, len(c)-1)])
		}
		c = append(c, x)
	}
	return c
}

func main() {
	pbt.Main(&pbt.Spec{
		ID:   "C18",
		Rule: "A case is a sequence of builder calls (non-trivial: at least 3 resulting operations, or accepted and rejected calls mixed) or a pair of ascending chains with every member (non-trivial: both longer than 1). Oracle: own list model for the calls, definitional recount for counts and read counts, graph search for dependencies, own chain predicate and end value for Product/Plus, arguments deep-unchanged including their backing arrays.",
		Kinds: map[string]func() pbt.Case{
			"long":      func() pbt.Case { return &long{} },
			"history":   func() pbt.Case { return &history{} },
			"operators": func() pbt.Case { return &operators{} },
		},
		Sections: []pbt.Section{
			{Name: "all-call-sequences", Enum: func(e *pbt.Enum) {
				for n := 0; n <= pbt.Pick(e.Tier, 3, 4); n++ {
					enumCalls(e, n)
				}
			}},
			{Name: "add-only-sequences", Enum: func(e *pbt.Enum) {
				// All programs of 4..5/6 additions, operands in every order, values may repeat.
				for n := 4; n <= pbt.Pick(e.Tier, 4, 5); n++ {
					calls := []call{}
					var rec func() bool
					rec = func() bool {
						if len(calls) == 2 && !e.Mine() {
							return true
						}
						if len(calls) == n {
							return e.Do(&history{Calls: slices.Clone(calls)})
						}
						for i := -1; i <= len(calls); i++ {
							for j := 0; j <= len(calls); j++ {
								if i < 0 && j > 0 {
									continue
								}
								c := call{F: "add", I: i, J: j}
								if i < 0 { // one doubling of the last element
									c = call{F: "double", I: len(calls)}
								}
								calls = append(calls, c)
								ok := rec()
								calls = calls[:len(calls)-1]
								if !ok {
									return false
								}
							}
						}
						return true
					}
					rec()
				}
			}},
			{Name: "chain-pairs", Enum: func(e *pbt.Enum) {
				as := ascendings(pbt.Pick(e.Tier, 6, 7))
				bs := ascendings(pbt.Pick(e.Tier, 5, 6))
				for _, a := range as {
					for _, b := range bs {
						if e.Mine() && !e.Do(&operators{A: ref.Big(a), B: ref.Big(b)}) {
							return
						}
						if len(a) > len(bs[len(bs)-1]) && e.Mine() && !e.Do(&operators{A: ref.Big(b), B: ref.Big(a)}) {
							return
						}
					}
				}
			}},
			{Name: "ladder", Enum: func(e *pbt.Enum) {
				gens.LadderOps(pbt.Pick(e.Tier, 70, 130), pbt.Pick(e.Tier, 300, 600), e.Mine, func(ops []ref.Op, note string) bool {
					h := &history{}
					for k, op := range ops {
						c := call{F: "add", I: op.I, J: op.J}
						if op.I == op.J && k%2 == 0 {
							c = call{F: "double", I: op.I}
						}
						h.Calls = append(h.Calls, c)
					}
					n := len(ops)
					// Out of range at the end, and one shift that doubles the length.
					h.Calls = append(h.Calls, call{F: "add", I: n + 1, J: 0}, call{F: "add", I: 0, J: n + 1}, call{F: "shift", I: n + 1, S: 3}, call{F: "double", I: n + 1}, call{F: "shift", I: n / 2, S: uint(n)}, call{F: "add", I: 2 * n, J: n})
					return e.Do(h)
				})
			}},
			{Name: "long", Exclusive: true, Shards: 1, CaseCPU: 300, Enum: func(e *pbt.Enum) {
				for _, n := range []int{255, 256, 257, 1000, 32767, 32768, 65535, 65536, 70000} {
					for _, f := range []string{"shift", "add", "dependencies"} {
						if f == "dependencies" && n > pbt.Pick(e.Tier, 20000, 200000) {
							continue
						}
						if e.Mine() && !e.Do(&long{F: f, N: n}) {
							return
						}
					}
				}
				if e.Mine() && !e.Do(&long{F: "dependencies", N: 20000}) {
					return
				}
				// Long chains with large elements.
				for _, n := range []int{70, 130, 260, 520} {
					ones, pows := []*big.Int{}, []*big.Int{}
					for i := 0; i < n; i++ {
						ones = append(ones, big.NewInt(int64(i+1)))
						pows = append(pows, new(big.Int).Lsh(big.NewInt(1), uint(i)))
					}
					for _, a := range [][]*big.Int{ones, pows} {
						for _, b := range [][]*big.Int{ones, pows} {
							if e.Mine() && !e.Do(&operators{A: a, B: b}) {
								return
							}
						}
					}
				}
			}},
			{Name: "random-calls", Fuzz: 90, N: 20000, Gen: genCalls},
			{Name: "random-pairs", Fuzz: 90, N: 8000, Gen: func(t *rapid.T) pbt.Case {
				a, b := ascending(t, "a"), ascending(t, "b")
				if gens.Uni(t, "same", 0, 9) == 0 {
					b = ref.Clone(a)
				}
				return &operators{A: a, B: b}
			}},
		},
	})
}
