// C05: allocated programs compute the chain, even when the output aliases the input.
package main

import (
	"fmt"
	"math/big"

	"github.com/mmcloughlin/addchain/acc"
	"github.com/mmcloughlin/addchain/acc/eval"
	"github.com/mmcloughlin/addchain/acc/ir"
	"github.com/mmcloughlin/addchain/acc/pass"
	"github.com/mmcloughlin/addchain/alg/ensemble"
	"pgregory.net/rapid"

	"github.com/mmcloughlin/addchain/verif/conv"
	"github.com/mmcloughlin/addchain/verif/gens"
	"github.com/mmcloughlin/addchain/verif/pbt"
	"github.com/mmcloughlin/addchain/verif/ref"
)

// instrs is an instruction list to allocate. Mode is the sharing of operand
// objects, Pre what runs before allocation, Naming the allocator's configuration.
type instrs struct {
	Ins    []ref.ValInstr `json:"ins"`
	Mode   int            `json:"mode,omitempty"`
	Pre    int            `json:"pre,omitempty"`
	Naming int            `json:"naming,omitempty"`
	Note   string         `json:"note,omitempty"`
}

var namings = []pass.Allocator{
	{Input: "x", Output: "z", Format: "t%d"},
	{Input: "in", Output: "out", Format: "tmp%02d"},
	{Input: "a", Output: "&r", Format: "&v[%d]"},
	{Input: "t", Output: "T", Format: "t_%d"},
	// Inputs and outputs that are temporaries of the others.
	{Input: "t0", Output: "t1", Format: "x%d"},
	{Input: "tmp00", Output: "&v[1]", Format: "in%d"},
	{Input: "&v[0]", Output: "t_1", Format: "a%d"},
	{Input: "t_0", Output: "x0", Format: "q%d"},
}

// Pre-passes.
const (
	preNone = iota
	preEval
	preNames
	preCanonical
	preOwnNames // operands already carry names that clash with the allocator's
	preAll
	preConflict // several names for one element
	preRejected // a pass that failed on such names
	preTwice    // an allocation with other names
	preGlobal   // the package's operand for element 0
	preClone    // a copy, before the original is allocated with other names
	pres
)

func (c *instrs) Check(r *pbt.Rec) error {
	if !gens.WellFormed(c.Ins) {
		return pbt.ErrInvalid
	}
	if c.Note != "" {
		r.Class("style:%s", c.Note)
	}
	vals, err := ref.RunValues(c.Ins)
	if err != nil {
		return pbt.ErrInvalid
	}
	want := vals[c.Ins[len(c.Ins)-1].Out]
	a := namings[((c.Naming%len(namings))+len(namings))%len(namings)]
	return pbt.Catch(func() error {
		p := conv.ToIR(c.Ins, c.Mode)
		var err error
		var orig *ir.Program
		switch c.Pre {
		case preClone:
			orig, p = p, p.Clone()
		case preEval:
			err = pass.Eval(p)
		case preNames:
			err = pass.Exec(p, pass.NameByteValues, pass.NameXRuns)
		case preCanonical:
			err = pass.Exec(p, pass.Func(pass.CanonicalizeOperands), pass.Func(pass.Indexes))
		case preOwnNames:
			for _, in := range p.Instructions {
				for _, o := range in.Operands() {
					switch o.Index % 4 {
					case 0:
						o.Identifier = a.Output
					case 1:
						o.Identifier = a.Input
					case 2:
						o.Identifier = fmt.Sprintf(a.Format, 0)
					}
				}
			}
		case preConflict, preRejected:
			for k, in := range p.Instructions {
				for j, o := range in.Operands() {
					o.Identifier = fmt.Sprintf("n%d", (3*k+j)%5)
				}
			}
			if c.Pre == preRejected {
				_ = pass.CanonicalizeOperands(p)
			}
		case preTwice:
			b := namings[(c.Naming%len(namings)+len(namings)+1+len(c.Ins)%3)%len(namings)]
			if len(c.Ins)%4 == 0 {
				b = a
			}
			err = b.Execute(p)
		case preGlobal:
			for _, in := range p.Instructions {
				switch op := in.Op.(type) {
				case ir.Add:
					in.Op = ir.Add{X: global(op.X), Y: global(op.Y)}
				case ir.Double:
					in.Op = ir.Double{X: global(op.X)}
				case ir.Shift:
					in.Op = ir.Shift{X: global(op.X), S: op.S}
				}
			}
		case preAll:
			err = pass.Exec(p, pass.Validate, pass.Func(pass.ReadCounts), pass.NameByteValues, pass.NameXRuns, pass.Func(pass.Eval))
		}
		if err != nil {
			return fmt.Errorf("preparing %v: %v", c.Ins, err)
		}
		if err := a.Execute(p); err != nil {
			return fmt.Errorf("allocation fails: %v\n%v", err, p)
		}
		if orig != nil {
			b := namings[(c.Naming%len(namings)+len(namings)+1)%len(namings)]
			if err := b.Execute(orig); err != nil {
				return fmt.Errorf("allocating the original of a copy: %v", err)
			}
			if _, err := allocated(orig, b, want); err != nil {
				return fmt.Errorf("original of a copy: %v", err)
			}
			// A copy of the allocated program is the same listing.
			cp := p.Clone()
			cp.Temporaries = p.Temporaries
			if _, err := allocated(cp, a, want); err != nil {
				return fmt.Errorf("copy of an allocated program: %v", err)
			}
		}
		n, err := allocated(p, a, want)
		if err != nil {
			return fmt.Errorf("%v\ntemporaries %v\n%v", err, p.Temporaries, p)
		}
		if n >= 1 {
			r.NonTrivial()
		}
		r.Class("temporaries<=%d", (n+3)/4*4)
		r.Class("pre=%d", c.Pre)
		return nil
	})
}

func global(o *ir.Operand) *ir.Operand {
	if o.Index == 0 {
		return ir.One
	}
	return o
}

// allocated checks an allocated program and returns the number of temporaries.
func allocated(p *ir.Program, a pass.Allocator, want *big.Int) (int, error) {
	regs, err := conv.Registers(p)
	if err != nil {
		return 0, err
	}
	used := map[string]bool{}
	for _, v := range regs {
		used[v.Out] = true
		used[v.X] = true
		if v.K == "+" {
			used[v.Y] = true
		}
	}
	delete(used, a.Input)
	delete(used, a.Output)
	declared := map[string]bool{}
	for _, t := range p.Temporaries {
		if declared[t] {
			return 0, fmt.Errorf("temporary %q is declared twice", t)
		}
		declared[t] = true
		if !used[t] {
			return 0, fmt.Errorf("temporary %q is declared but not used", t)
		}
	}
	for n := range used {
		if !declared[n] {
			return 0, fmt.Errorf("name %q is used but not declared", n)
		}
	}
	for _, alias := range []bool{false, true} {
		got, err := ref.RunRegisters(regs, a.Input, a.Output, p.Temporaries, alias)
		if err != nil {
			return 0, fmt.Errorf("aliased=%v: %v", alias, err)
		}
		if got.Cmp(want) != 0 {
			return 0, fmt.Errorf("aliased=%v: output holds %v, want %v", alias, got, want)
		}
		// The repository's own machine must agree.
		i := eval.NewInterpreter()
		x := big.NewInt(1)
		i.Store(a.Input, x)
		if alias {
			i.Store(a.Output, x)
		}
		if err := i.Execute(p); err != nil {
			return 0, fmt.Errorf("interpreter, aliased=%v: %v", alias, err)
		}
		got, ok := i.Load(a.Output)
		if !ok || got.Cmp(want) != 0 {
			return 0, fmt.Errorf("interpreter, aliased=%v: output holds %v, want %v", alias, got, want)
		}
		if in, ok := i.Load(a.Input); !alias && (!ok || in.Cmp(ref.One) != 0) {
			return 0, fmt.Errorf("interpreter: the input variable was changed to %v", in)
		}
	}
	return len(p.Temporaries), nil
}

func (c *instrs) Shrinks() []pbt.Case {
	var out []pbt.Case
	if c.Pre != 0 || c.Naming != 0 || c.Mode != 0 {
		out = append(out, &instrs{Ins: c.Ins})
	}
	for _, o := range gens.ShrinkInstrs(c.Ins) {
		out = append(out, &instrs{Ins: o, Mode: c.Mode, Pre: c.Pre, Naming: c.Naming})
	}
	return out
}

// member is the program of an ensemble member's result.
type member struct {
	N   *big.Int `json:"n"`
	Ens int      `json:"ens"`
}

func (c *member) Check(r *pbt.Rec) error {
	if c.N.Cmp(ref.One) <= 0 {
		return pbt.ErrInvalid
	}
	as := ensemble.Ensemble()
	if len(as) == 0 {
		return pbt.ErrInvalid
	}
	var ins []ref.ValInstr
	err := pbt.Catch(func() error {
		ch, err := as[((c.Ens%len(as))+len(as))%len(as)].FindChain(c.N)
		if err != nil {
			return err
		}
		p, err := ch.Program()
		if err != nil {
			return err
		}
		q, err := acc.Decompile(p)
		if err != nil {
			return err
		}
		ins, err = conv.FromIR(q)
		return err
	})
	if err != nil || !gens.WellFormed(ins) {
		r.Class("no program") // belongs to C01, C04
		return nil
	}
	return (&instrs{Ins: ins, Mode: c.Ens % 3, Pre: c.Ens % pres, Note: "algorithm"}).Check(r)
}

// large is a list with one size around 2^8 to 2^16.
type large struct {
	Form int `json:"form"`
	N    int `json:"n"`
	Mode int `json:"mode,omitempty"`
}

func (c *large) Shrinks() []pbt.Case {
	return []pbt.Case{&large{c.Form, c.N / 2, c.Mode}, &large{c.Form, c.N - c.N/8, c.Mode}, &large{c.Form, c.N - 1, c.Mode}}
}

func (c *large) Check(r *pbt.Rec) error {
	if c.N < 2 || c.N > 1<<20 || c.Form < 0 || c.Form >= gens.LargeForms || c.Mode < 0 || c.Mode > 2 {
		return pbt.ErrInvalid
	}
	ins := gens.LargeInstrs(c.Form, c.N)
	if !gens.WellFormed(ins) || !gens.AllUsed(ins) {
		pbt.HarnessFailure(fmt.Sprintf("form %d of size %d is not well formed", c.Form, c.N))
	}
	r.NonTrivial()
	short := func(err error) error {
		s := err.Error()
		if len(s) > 400 {
			s = s[:200] + " ... " + s[len(s)-200:]
		}
		return fmt.Errorf("form %d of size %d: %s", c.Form, c.N, s)
	}
	err := pbt.Catch(func() error {
		p := conv.ToIR(ins, c.Mode)
		a := pass.Allocator{Input: "x", Output: "z", Format: "t%d"}
		if err := a.Execute(p); err != nil {
			return fmt.Errorf("allocation fails: %v", err)
		}
		vals, err := ref.RunValues(ins)
		if err != nil {
			pbt.HarnessFailure(err.Error())
		}
		_, err = allocated(p, a, vals[ins[len(ins)-1].Out])
		return err
	})
	if err != nil {
		return short(err)
	}
	return nil
}

func main() {
	pbt.Main(&pbt.Spec{
		ID:   "C05",
		Rule: "A case is a well-formed instruction list (dead results, reads of the input at any time, shared or fresh operand objects, earlier passes and names); it is non-trivial when at least one temporary is declared. Oracle: own register machine run literally over the operand names with separate and with aliased input and output, value of the last element computed independently; name sets compared exactly; the repository's interpreter must agree.",
		Kinds: map[string]func() pbt.Case{
			"large": func() pbt.Case { return &large{} }, "instrs": func() pbt.Case { return &instrs{} },
			"member": func() pbt.Case { return &member{} },
		},
		Sections: []pbt.Section{
			{Name: "all-lists", Enum: func(e *pbt.Enum) {
				k := 0
				for n := 1; n <= pbt.Pick(e.Tier, 5, 7); n++ {
					gens.EnumInstrs(n, n <= 5, n <= 5, e.Mine, func(ins []ref.ValInstr) bool {
						k++
						return e.Do(&instrs{Ins: ins, Mode: k % 3})
					})
				}
			}},
			{Name: "short-modes", Enum: func(e *pbt.Enum) {
				for n := 1; n <= 3; n++ {
					gens.EnumInstrs(n, true, true, e.Mine, func(ins []ref.ValInstr) bool {
						for mode := 0; mode < 3; mode++ {
							for pre := 0; pre < pres; pre++ {
								for nm := range namings {
									if !e.Do(&instrs{Ins: ins, Mode: mode, Pre: pre, Naming: nm}) {
										return false
									}
								}
							}
						}
						return true
					})
				}
			}},
			{Name: "ladder", Enum: func(e *pbt.Enum) {
				gens.LadderInstrs(pbt.Pick(e.Tier, 70, 300), pbt.Pick(e.Tier, 300, 1025), e.Mine, func(ins []ref.ValInstr, note string) bool {
					for mode := 0; mode < 3; mode++ {
						if !e.Do(&instrs{Ins: ins, Mode: mode, Naming: len(ins) % len(namings), Note: note}) {
							return false
						}
					}
					return true
				})
			}},
			{Name: "large", CaseCPU: 300, Enum: func(e *pbt.Enum) {
				for _, n := range []int{255, 256, 257, 1000, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 70000, 1 << 20} {
					for form := 0; form < gens.LargeForms; form++ {
						if n > 70000 && form != 3 && form != 4 && e.Tier == pbt.Quick {
							continue
						}
						if e.Mine() && !e.Do(&large{form, n, (n + form) % 3}) {
							return
						}
					}
				}
			}},
			{Name: "random", Fuzz: 90, N: 40000, Gen: func(t *rapid.T) pbt.Case {
				ins, style := gens.Instrs(t, gens.Pick(t, "max", 8, 16, 40, 120), rapid.Bool().Draw(t, "used"))
				return &instrs{Ins: ins, Mode: gens.Uni(t, "mode", 0, 2), Pre: gens.Uni(t, "pre", 0, pres-1), Naming: gens.Uni(t, "naming", 0, len(namings)-1), Note: style}
			}},
			{Name: "long", N: 400, Seconds: 30, Gen: func(t *rapid.T) pbt.Case {
				ins, style := gens.Instrs(t, 600, rapid.Bool().Draw(t, "used"))
				return &instrs{Ins: ins, Mode: gens.Uni(t, "mode", 0, 2), Pre: gens.Uni(t, "pre", 0, pres-1), Note: style}
			}},
			{Name: "algorithm-results", N: 4000, Gen: func(t *rapid.T) pbt.Case {
				n, _ := gens.Target(t, gens.Pick(t, "bits", 8, 16, 64, 128, 256))
				return &member{N: n.Add(n, ref.One), Ens: gens.Uni(t, "ens", 0, 255)}
			}},
		},
	})
}
