// C17: allocation never needs more temporaries than values simultaneously alive.
package main

import (
	"fmt"
	"slices"

	"github.com/mmcloughlin/addchain/acc/ir"
	"github.com/mmcloughlin/addchain/acc/pass"
	"pgregory.net/rapid"

	"github.com/mmcloughlin/addchain/verif/conv"
	"github.com/mmcloughlin/addchain/verif/gens"
	"github.com/mmcloughlin/addchain/verif/pbt"
	"github.com/mmcloughlin/addchain/verif/ref"
)

type instrs struct {
	Ins  []ref.ValInstr `json:"ins"`
	Mode int            `json:"mode,omitempty"`
	Note string         `json:"note,omitempty"`
}

func (c *instrs) Check(r *pbt.Rec) error {
	if !gens.WellFormed(c.Ins) || !gens.AllUsed(c.Ins) {
		return pbt.ErrInvalid
	}
	if c.Note != "" {
		r.Class("style:%s", c.Note)
	}
	return pbt.Catch(func() error {
		p := conv.ToIR(c.Ins, c.Mode)
		a := pass.Allocator{Input: "x", Output: "z", Format: "t%d"}
		// What was done to the program before makes no difference.
		h := len(c.Ins)
		for _, v := range c.Ins {
			h = h*31 + 7*v.Out + int(v.S)
		}
		switch h % 5 {
		case 1:
			if err := (pass.Allocator{Input: "t0", Output: "t1", Format: "x%d"}).Execute(p); err != nil {
				return fmt.Errorf("first allocation fails: %v\n%v", err, p)
			}
		case 2:
			if err := a.Execute(p); err != nil {
				return fmt.Errorf("first allocation fails: %v\n%v", err, p)
			}
		case 3:
			if err := pass.Exec(p, pass.Func(pass.Eval), pass.Func(pass.ReadCounts), pass.NameByteValues); err != nil {
				return fmt.Errorf("passes fail: %v\n%v", err, p)
			}
		}
		if err := a.Execute(p); err != nil {
			return fmt.Errorf("allocation fails: %v\n%v", err, p)
		}
		pts := ref.Live(c.Ins)
		peak := 0
		for _, m := range pts {
			peak = max(peak, len(m))
		}
		n := len(p.Temporaries)
		if n > peak {
			return fmt.Errorf("%d temporaries %v, but at most %d values are live at once\n%v", n, p.Temporaries, peak, p)
		}
		if err := reuse(c.Ins, pts, p); err != nil {
			return fmt.Errorf("%v\n%v", err, p)
		}
		r.Class("peak-temporaries=%d", peak-n)
		if n >= 2 {
			r.NonTrivial()
		}
		return nil
	})
}

// reuse checks that no temporary was introduced while dead storage was at hand, in
// whichever direction the instructions were scanned: whatever the direction, when
// the second of two temporaries is introduced, the first one's value is live, so
// every two temporaries hold live values at the same time at some point. (One
// variable may also have been reserved along with the input while that is live.)
// Likewise a temporary used only once the input is dead must be live together with
// the output variable, or with the temporary that stands for its storage before, at
// some point.
func reuse(ins []ref.ValInstr, pts []map[int]bool, p *ir.Program) error {
	type set []bool
	ranges := map[string]set{}
	lastread, first := 0, map[string]int{}
	var input set = make(set, len(pts))
	for k, m := range pts {
		input[k] = m[0]
	}
	for _, v := range ins {
		for _, i := range v.Inputs() {
			if i == 0 {
				lastread = v.Out
			}
		}
	}
	for q, v := range ins {
		name := p.Instructions[q].Output.Identifier
		if ranges[name] == nil {
			ranges[name] = make(set, len(pts))
			first[name] = v.Out
		}
		for k, m := range pts {
			if m[v.Out] {
				ranges[name][k] = true
			}
		}
	}
	overlap := func(a, b set) bool {
		for k := range a {
			if a[k] && b[k] {
				return true
			}
		}
		return false
	}
	// Variables: the temporaries and, last, the output variable.
	names := append(slices.Clone(p.Temporaries), "z")
	n := len(names) - 1
	if ranges["z"] == nil {
		ranges["z"] = make(set, len(pts))
	}
	both := make([][]bool, n+1) // live together at some point
	with := make([]bool, n+1)   // live together with the input
	for i, t := range names {
		if ranges[t] == nil {
			return fmt.Errorf("temporary %q is never written", t)
		}
		both[i] = make([]bool, n+1)
		for j, u := range names[:i] {
			both[i][j] = overlap(ranges[t], ranges[u])
			both[j][i] = both[i][j]
		}
		with[i] = overlap(ranges[t], input)
	}
	// in is the variable reserved along with the input, early the temporary that is
	// the output variable's storage while the input is live; -1 for none.
	var bad [2]int
	explained := func(in, early int) bool {
		pair := func(i, j int) bool {
			return both[i][j] || in == i && with[j] || in == j && with[i]
		}
		ok := func(i, j int) bool {
			return pair(i, j) || early == i && pair(n, j) || early == j && pair(i, n)
		}
		for i := 0; i < n; i++ {
			for j := 0; j < i; j++ {
				if !ok(i, j) {
					bad = [2]int{i, j}
					return false
				}
			}
			if i != early && first[names[i]] >= lastread && !pair(i, n) && !(early >= 0 && pair(i, early)) {
				bad = [2]int{i, n}
				return false
			}
		}
		return true
	}
	for in := -1; in <= n; in++ {
		for early := -1; early < n; early++ {
			if explained(in, early) {
				return nil
			}
		}
	}
	explained(-1, -1)
	return fmt.Errorf("variables %q and %q are never live at the same time: a dead value's storage is not reused", names[bad[0]], names[bad[1]])
}

func (c *instrs) Shrinks() []pbt.Case {
	var out []pbt.Case
	for _, o := range gens.ShrinkInstrs(c.Ins) {
		if gens.AllUsed(o) {
			out = append(out, &instrs{Ins: o, Mode: c.Mode})
		}
	}
	return out
}

// large is a list with one size around 2^8 to 2^16.
type large struct {
	Form int `json:"form"`
	N    int `json:"n"`
	Mode int `json:"mode,omitempty"`
}

func (c *large) Shrinks() []pbt.Case {
	return []pbt.Case{&large{c.Form, c.N / 2, c.Mode}, &large{c.Form, c.N - c.N/8, c.Mode}, &large{c.Form, c.N - 1, c.Mode}}
}

func (c *large) Check(r *pbt.Rec) error {
	if c.N < 2 || c.N > 1<<20 || c.Form < 0 || c.Form >= gens.LargeForms || c.Mode < 0 || c.Mode > 2 {
		return pbt.ErrInvalid
	}
	ins := gens.LargeInstrs(c.Form, c.N)
	if !gens.WellFormed(ins) || !gens.AllUsed(ins) {
		pbt.HarnessFailure(fmt.Sprintf("form %d of size %d is not well formed", c.Form, c.N))
	}
	r.NonTrivial()
	short := func(err error) error {
		s := err.Error()
		if len(s) > 400 {
			s = s[:200] + " ... " + s[len(s)-200:]
		}
		return fmt.Errorf("form %d of size %d: %s", c.Form, c.N, s)
	}
	err := pbt.Catch(func() error {
		p := conv.ToIR(ins, c.Mode)
		a := pass.Allocator{Input: "x", Output: "z", Format: "t%d"}
		if err := a.Execute(p); err != nil {
			return fmt.Errorf("allocation fails: %v", err)
		}
		if n, peak := len(p.Temporaries), ref.Peak(ins); n > peak {
			return fmt.Errorf("%d temporaries, but at most %d values are live at once", n, peak)
		}
		return nil
	})
	if err != nil {
		return short(err)
	}
	return nil
}

func main() {
	pbt.Main(&pbt.Spec{
		ID:          "C17",
		Rule:        "A case is a well-formed instruction list in which every result but the last is read; it is non-trivial when at least 2 temporaries are declared. Oracle: own backward liveness (between instructions, the input counted while it is live): temporaries <= peak; and every two temporaries are live together at some point, apart from one reserved along with the input.",
		Assumptions: []string{"The second clause (storage of a dead value is reused first) is checked in a form that holds for forward and for backward scans."},
		Kinds:       map[string]func() pbt.Case{"large": func() pbt.Case { return &large{} }, "instrs": func() pbt.Case { return &instrs{} }},
		Sections: []pbt.Section{
			{Name: "all-lists", Enum: func(e *pbt.Enum) {
				for n := 1; n <= pbt.Pick(e.Tier, 6, 7); n++ {
					gens.EnumInstrs(n, n <= 5, n <= 5, e.Mine, func(ins []ref.ValInstr) bool {
						if !gens.AllUsed(ins) {
							return !e.Stopped()
						}
						return e.Do(&instrs{Ins: ins})
					})
				}
			}},
			{Name: "ladder", Enum: func(e *pbt.Enum) {
				gens.LadderInstrs(pbt.Pick(e.Tier, 70, 300), pbt.Pick(e.Tier, 300, 1025), e.Mine, func(ins []ref.ValInstr, note string) bool {
					return e.Do(&instrs{Ins: ins, Mode: len(ins) % 3, Note: note})
				})
			}},
			{Name: "large", CaseCPU: 300, Enum: func(e *pbt.Enum) {
				for _, n := range []int{255, 256, 257, 1000, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 70000, 1 << 20} {
					for form := 0; form < gens.LargeForms; form++ {
						if n > 70000 && form != 3 && form != 4 && e.Tier == pbt.Quick {
							continue
						}
						if e.Mine() && !e.Do(&large{form, n, (n + form) % 3}) {
							return
						}
					}
				}
			}},
			{Name: "random", Fuzz: 90, N: 80000, Gen: func(t *rapid.T) pbt.Case {
				ins, style := gens.Instrs(t, gens.Pick(t, "max", 8, 16, 40, 120), true)
				return &instrs{Ins: ins, Mode: gens.Uni(t, "mode", 0, 2), Note: style}
			}},
		},
	})
}
