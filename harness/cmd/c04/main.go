// C04: the script printed for a chain loads back to exactly that chain.
package main

import (
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strings"

	"github.com/mmcloughlin/addchain"
	"github.com/mmcloughlin/addchain/acc"
	"github.com/mmcloughlin/addchain/acc/ir"
	"github.com/mmcloughlin/addchain/acc/printer"
	"github.com/mmcloughlin/addchain/alg/ensemble"
	"pgregory.net/rapid"

	"github.com/mmcloughlin/addchain/verif/conv"
	"github.com/mmcloughlin/addchain/verif/gens"
	"github.com/mmcloughlin/addchain/verif/pbt"
	"github.com/mmcloughlin/addchain/verif/ref"
)

// program is a list of additions with pairwise distinct values.
type program struct {
	Ops  []ref.Op `json:"ops"`
	File bool     `json:"file,omitempty"`
	Note string   `json:"note,omitempty"`
}

func (c *program) Check(r *pbt.Rec) error {
	want, err := ref.Eval(c.Ops)
	if err != nil || !ref.Distinct(want) {
		return pbt.ErrInvalid
	}
	if c.Note != "" {
		r.Class("source:%s", c.Note)
	}
	p := conv.Program(c.Ops)
	before := slices.Clone(p)
	return pbt.Catch(func() error {
		q, err := acc.Decompile(p)
		if err != nil {
			return fmt.Errorf("Decompile(%v): %v", p, err)
		}
		if !slices.Equal(p, before) {
			return fmt.Errorf("Decompile changed the program from %v to %v", before, p)
		}
		ins, err := conv.FromIR(q)
		if err != nil {
			return fmt.Errorf("Decompile(%v): %v", p, err)
		}
		if err := instructions(ins, c.Ops, want); err != nil {
			return fmt.Errorf("instruction form of %v: %v\n%v", p, err, q)
		}
		syntax, err := acc.Build(q)
		if err != nil {
			return fmt.Errorf("Build of %v: %v\n%v", p, err, q)
		}
		text, err := printer.String(syntax)
		if err != nil {
			return fmt.Errorf("printing the script of %v: %v", p, err)
		}
		l, err := acc.LoadString(text)
		if err != nil {
			return fmt.Errorf("script of %v does not load: %v\n%s", p, err, text)
		}
		if err := loaded(l, c.Ops, want); err != nil {
			return fmt.Errorf("script of %v: %v\n%s", p, err, text)
		}
		// The convenience form of the same conversion.
		q2, err := acc.Decompile(p)
		if err != nil {
			return fmt.Errorf("Decompile(%v): %v", p, err)
		}
		text2, err := acc.String(q2)
		if err != nil {
			return fmt.Errorf("acc.String for %v: %v", p, err)
		}
		if text2 != text {
			l, err := acc.LoadString(text2)
			if err != nil {
				return fmt.Errorf("script of %v does not load: %v\n%s", p, err, text2)
			}
			if err := loaded(l, c.Ops, want); err != nil {
				return fmt.Errorf("script of %v: %v\n%s", p, err, text2)
			}
		}
		if c.File {
			if err := c.file(p, want); err != nil {
				return err
			}
		}
		shifts, adds, inline := 0, 0, false
		for _, in := range ins {
			if in.K == "s" {
				shifts++
			}
			if in.K == "+" {
				adds++
			}
		}
		if len(syntax.Statements) < len(ins) {
			inline = true
			r.Class("inlined")
		}
		if shifts > 0 {
			r.Class("with shifts")
		}
		if len(c.Ops) >= 2 && (shifts > 0 || inline) {
			r.NonTrivial()
		}
		if strings.Contains(text, "[") {
			r.Class("with index operands")
		}
		r.Class("ops<=%d", (len(c.Ops)+15)/16*16)
		return nil
	})
}

func (c *program) file(p addchain.Program, want []*big.Int) error {
	dir, err := os.MkdirTemp("", "verif-c04-")
	if err != nil {
		return nil
	}
	defer os.RemoveAll(dir)
	q, err := acc.Decompile(p)
	if err != nil {
		return err
	}
	name := filepath.Join(dir, "s.acc")
	// The file held something else, longer, before.
	old := "old = 2*1\n" + strings.Repeat("return old + old\n", 20+3*len(p))
	if len(p)%2 == 0 {
		if err := os.WriteFile(name, []byte(old), 0o644); err != nil {
			pbt.HarnessFailure(err.Error())
		}
		_, _ = acc.LoadFile(name)
	}
	if err := acc.Save(name, q); err != nil {
		return fmt.Errorf("Save for %v: %v", p, err)
	}
	l, err := acc.LoadFile(name)
	if err != nil {
		return fmt.Errorf("saved script of %v does not load: %v", p, err)
	}
	if err := loaded(l, c.Ops, want); err != nil {
		return fmt.Errorf("saved script of %v: %v", p, err)
	}
	return nil
}

func instructions(ins []ref.ValInstr, ops []ref.Op, want []*big.Int) error {
	got, err := ref.ExpandValues(ins)
	if err != nil {
		return err
	}
	if len(got) != len(ops) {
		return fmt.Errorf("expands to %d operations %v, want %v", len(got), got, ops)
	}
	for i := range got {
		a, b := got[i], ops[i]
		if !(a == b || a.I == b.J && a.J == b.I) {
			return fmt.Errorf("operation %d expands to %v, want %v", i+1, a, b)
		}
	}
	vals, err := ref.RunValues(ins)
	if err != nil {
		return err
	}
	for i, v := range vals {
		if v.Cmp(want[i]) != 0 {
			return fmt.Errorf("element %d computed as %v, want %v", i, v, want[i])
		}
	}
	return nil
}

func loaded(l *ir.Program, ops []ref.Op, want []*big.Int) error {
	if !ref.Equal(l.Chain, want) {
		return fmt.Errorf("loads to chain %v, want %v", l.Chain, want)
	}
	return conv.SameOps(l.Program, ops)
}

func (c *program) Shrinks() []pbt.Case {
	var out []pbt.Case
	for _, o := range gens.ShrinkOps(c.Ops) {
		out = append(out, &program{Ops: o})
	}
	return out
}

// script is a program that comes from a script and has names of its own.
type script struct {
	S ref.Script `json:"s"`
	// Twice prints it twice; Loaded runs the passes of loading first.
	Twice  bool `json:"twice,omitempty"`
	Loaded bool `json:"loaded,omitempty"`
}

func (c *script) Check(r *pbt.Rec) error {
	if len(c.S) == 0 {
		return pbt.ErrInvalid
	}
	want, err := ref.Load(c.S, 1<<12)
	if err != nil || want.BareMissing || want.ZeroShift || !ref.Distinct(want.Chain) {
		return pbt.ErrInvalid
	}
	return pbt.Catch(func() error {
		var q *ir.Program
		var err error
		if source := conv.ToAST(c.S); c.Loaded {
			text, err := printer.String(source)
			if err != nil {
				return err
			}
			if q, err = acc.LoadString(text); err != nil {
				r.Class("does not load") // belongs to C03 and C07
				return nil
			}
		} else if q, err = acc.Translate(source); err != nil {
			r.Class("not translated") // belongs to C03
			return nil
		}
		for k := 0; k < 1 || c.Twice && k < 2; k++ {
			ins, err := conv.FromIR(q)
			if err != nil {
				return err
			}
			got, err := ref.ExpandValues(ins)
			if err != nil || conv.SameOps(conv.Program(got), want.Ops) != nil {
				r.Class("translated wrongly") // belongs to C03
				return nil
			}
			text, err := acc.String(q)
			if err != nil {
				if strings.Contains(err.Error(), "conflict") {
					r.Class("element with two names")
					return nil
				}
				return fmt.Errorf("acc.String for script %v: %v", c.S, err)
			}
			l, err := acc.LoadString(text)
			if err != nil {
				return fmt.Errorf("script %v is printed as one that does not load: %v\n%s", c.S, err, text)
			}
			if err := loaded(l, want.Ops, want.Chain); err != nil {
				return fmt.Errorf("script %v: %v\n%s", c.S, err, text)
			}
			// What was loaded is a program with names, too.
			text2, err := acc.String(l)
			if err != nil {
				return fmt.Errorf("acc.String for loaded script: %v\n%s", err, text)
			}
			l2, err := acc.LoadString(text2)
			if err != nil {
				return fmt.Errorf("the script of a loaded script does not load: %v\n%s\n%s", err, text, text2)
			}
			if err := loaded(l2, want.Ops, want.Chain); err != nil {
				return fmt.Errorf("the script of a loaded script: %v\n%s\n%s", err, text, text2)
			}
			if text2 != text {
				r.Class("printed differently the second time")
			}
			if len(want.Ops) >= 2 && len(c.S) >= 2 {
				r.NonTrivial()
			}
		}
		return nil
	})
}

func (c *script) Shrinks() []pbt.Case {
	var out []pbt.Case
	for i := range c.S {
		out = append(out, &script{append(slices.Clone(c.S[:i]), c.S[i+1:]...), c.Twice, c.Loaded})
	}
	if c.Twice {
		out = append(out, &script{c.S, false, c.Loaded})
	}
	if c.Loaded {
		out = append(out, &script{c.S, c.Twice, false})
	}
	return out
}

// member is the result of an ensemble member for a target.
type member struct {
	N   *big.Int `json:"n"`
	Ens int      `json:"ens"`
}

func (c *member) Check(r *pbt.Rec) error {
	if c.N.Sign() <= 0 {
		return pbt.ErrInvalid
	}
	as := ensemble.Ensemble()
	if len(as) == 0 {
		return pbt.ErrInvalid
	}
	a := as[((c.Ens%len(as))+len(as))%len(as)]
	var ops []ref.Op
	err := pbt.Catch(func() error {
		ch, err := a.FindChain(c.N)
		if err != nil {
			return err
		}
		if err := ref.CheckChain(ch); err != nil {
			return err
		}
		p, err := ch.Program()
		if err != nil {
			return err
		}
		for _, op := range p {
			ops = append(ops, ref.Op{I: op.I, J: op.J})
		}
		return nil
	})
	if err != nil {
		r.Class("algorithm failed") // belongs to C01
		return nil
	}
	return (&program{Ops: ops, Note: "algorithm"}).Check(r)
}

// command is a run of the search command.
type command struct {
	N    *big.Int `json:"n"`
	Args []string `json:"args,omitempty"`
}

func (c *command) Check(r *pbt.Rec) error {
	bin := os.Getenv("VERIF_ADDCHAIN")
	if bin == "" || c.N.Sign() <= 0 {
		return pbt.ErrInvalid
	}
	args := append([]string{"search"}, c.Args...)
	cmd := exec.Command(bin, append(args, c.N.String())...)
	var stderr strings.Builder
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	if err != nil {
		return fmt.Errorf("search %v: %v\n%s", c.N, err, stderr.String())
	}
	l, err := acc.LoadString(string(out))
	if err != nil {
		return fmt.Errorf("search %v prints a script that does not load: %v\n%s", c.N, err, out)
	}
	if err := ref.CheckChain(l.Chain); err != nil {
		return fmt.Errorf("search %v prints a script of an invalid chain: %v\n%s", c.N, err, out)
	}
	// The chain must be one that an algorithm found, with the same operations.
	for _, a := range ensemble.Ensemble() {
		ch, err := a.FindChain(c.N)
		if err != nil || !ref.Equal(ch, l.Chain) {
			continue
		}
		p, err := ch.Program()
		if err != nil {
			continue
		}
		var ops []ref.Op
		for _, op := range p {
			ops = append(ops, ref.Op{I: op.I, J: op.J})
		}
		if conv.SameOps(l.Program, ops) == nil {
			r.Class("command")
			if len(ops) > 2 {
				r.NonTrivial()
			}
			return nil
		}
	}
	return fmt.Errorf("search %v prints a script whose chain no algorithm found: %v\n%s", c.N, l.Chain, out)
}

// large is a regular program with one size up to 2^16 and beyond: operations, elements
// read late, or doublings in a row.
type large struct {
	Form int  `json:"form"`
	N    int  `json:"n"`
	Flip bool `json:"flip,omitempty"` // operands the other way round
}

func (c *large) Shrinks() []pbt.Case {
	return []pbt.Case{&large{c.Form, c.N / 2, c.Flip}, &large{c.Form, c.N - c.N/8, c.Flip}, &large{c.Form, c.N - 1, c.Flip}}
}

func (c *large) Check(r *pbt.Rec) error {
	if c.Form < 0 || c.Form > 4 || c.N < 2 || c.N > 1<<18 {
		return pbt.ErrInvalid
	}
	ops, err := ref.ExpandValues(gens.LargeInstrs(c.Form, c.N))
	if err != nil {
		pbt.HarnessFailure(err.Error())
	}
	if c.Flip {
		for i, o := range ops {
			ops[i] = ref.Op{I: o.J, J: o.I}
		}
	}
	r.NonTrivial()
	p := conv.Program(ops)
	what := fmt.Sprintf("program of form %d and size %d (%d operations)", c.Form, c.N, len(ops))
	same := func(n int, at func(i int) (int, int)) error {
		if n != len(ops) {
			return fmt.Errorf("%d operations", n)
		}
		for k, o := range ops {
			if i, j := at(k); !(i == o.I && j == o.J || i == o.J && j == o.I) {
				return fmt.Errorf("operation %d is %d+%d, want %v", k+1, i, j, o)
			}
		}
		return nil
	}
	err = pbt.Catch(func() error {
		q, err := acc.Decompile(p)
		if err != nil {
			return err
		}
		ins, err := conv.FromIR(q)
		if err != nil {
			return err
		}
		got, err := ref.ExpandValues(ins)
		if err != nil {
			return err
		}
		if err := same(len(got), func(i int) (int, int) { return got[i].I, got[i].J }); err != nil {
			return fmt.Errorf("instruction form: %v", err)
		}
		text, err := acc.String(q)
		if err != nil {
			return err
		}
		l, err := acc.LoadString(text)
		if err != nil {
			return fmt.Errorf("the script of %d bytes does not load: %v", len(text), err)
		}
		if err := same(len(l.Program), func(i int) (int, int) { return l.Program[i].I, l.Program[i].J }); err != nil {
			return fmt.Errorf("the script of %d bytes loads to something else: %v", len(text), err)
		}
		// Values follow from the operations.
		if len(l.Chain) != len(ops)+1 || l.Chain[0].Cmp(ref.One) != 0 {
			return fmt.Errorf("the chain has %d elements", len(l.Chain))
		}
		for k, o := range ops {
			if new(big.Int).Add(l.Chain[o.I], l.Chain[o.J]).Cmp(l.Chain[k+1]) != 0 {
				return fmt.Errorf("element %d of the chain is wrong", k+1)
			}
		}
		return nil
	})
	if err != nil {
		return fmt.Errorf("%s: %.400s", what, err.Error())
	}
	return nil
}

func main() {
	pbt.Main(&pbt.Spec{
		ID:          "C04",
		Rule:        "A case is a duplicate-free program of additions (operands in either order), an algorithm result, a search command or a script with names of its own that is translated and printed again; it is non-trivial when it has at least 2 operations and its script folds doublings into a shift or inlines an expression. Oracle: own expansion and evaluation of the instruction form, operation-wise equality (up to operand order) and equal chain after loading the printed text.",
		Assumptions: []string{"The loader is judged by C03; here only its result for printed scripts is compared with the original program."},
		Kinds: map[string]func() pbt.Case{
			"large":   func() pbt.Case { return &large{} },
			"program": func() pbt.Case { return &program{} },
			"member":  func() pbt.Case { return &member{} },
			"script":  func() pbt.Case { return &script{} },
			"command": func() pbt.Case { return &command{} },
		},
		Sections: []pbt.Section{
			{Name: "all-programs", Enum: func(e *pbt.Enum) {
				for n := 0; n <= 6; n++ {
					gens.EnumOps(n, true, e.Mine, func(ops []ref.Op, _ []int64) bool {
						return e.Do(&program{Ops: slices.Clone(ops)})
					})
				}
				if e.Tier == pbt.Thorough {
					gens.EnumOps(7, true, e.Mine, func(ops []ref.Op, _ []int64) bool {
						return e.Do(&program{Ops: slices.Clone(ops)})
					})
				}
			}},
			{Name: "ladder", Enum: func(e *pbt.Enum) {
				gens.LadderOps(pbt.Pick(e.Tier, 70, 300), pbt.Pick(e.Tier, 300, 1025), e.Mine, func(ops []ref.Op, note string) bool {
					return e.Do(&program{Ops: ops, Note: note})
				})
			}},
			{Name: "large", Shards: 6, CaseCPU: 600, Enum: func(e *pbt.Enum) {
				for _, n := range []int{3, 1000, 4095, 4096, 4097, 8192, 16384, 32768, 65535, 65536, 65537, 70000} {
					for f := 0; f <= 4; f++ {
						if (f == 1 || f == 2) && n > pbt.Pick(e.Tier, 4097, 16384) {
							continue // the parser's table of 20000 statements takes gigabytes
						}
						if (f == 0 || f >= 3) && n > 16384 && n != 65536 && e.Tier == pbt.Quick {
							continue
						}
						if e.Mine() && !e.Do(&large{f, n, (f+n)%2 == 0}) {
							return
						}
					}
				}
			}},
			{Name: "random-programs", Fuzz: 90, N: 24000, Gen: func(t *rapid.T) pbt.Case {
				ops, style := gens.Ops(t, gens.Pick(t, "max", 6, 12, 30, 60))
				return &program{Ops: ops, Note: style}
			}},
			{Name: "scripts-with-names", Fuzz: 60, N: 16000, Gen: func(t *rapid.T) pbt.Case {
				ops, _ := gens.Ops(t, gens.Pick(t, "max", 4, 8, 16, 40))
				return &script{gens.NamedScript(t, ops), gens.Uni(t, "twice", 0, 3) == 0, gens.Uni(t, "loaded", 0, 3) == 0}
			}},
			{Name: "long-programs", N: 400, Seconds: 30, Gen: func(t *rapid.T) pbt.Case {
				ops, style := gens.Ops(t, gens.Pick(t, "max", 150, 400))
				return &program{Ops: ops, Note: style}
			}},
			{Name: "files", N: 240, Seconds: 10, Gen: func(t *rapid.T) pbt.Case {
				ops, style := gens.Ops(t, 40)
				return &program{Ops: ops, File: true, Note: style}
			}},
			{Name: "algorithm-results", N: 4000, Gen: func(t *rapid.T) pbt.Case {
				n, _ := gens.Target(t, gens.Pick(t, "bits", 8, 16, 64, 128, 256))
				return &member{N: n, Ens: gens.Uni(t, "ens", 0, 255)}
			}},
			{Name: "search-command", N: 160, Seconds: 30, Gen: func(t *rapid.T) pbt.Case {
				n, _ := gens.Target(t, gens.Pick(t, "bits", 1, 4, 8, 12, 40))
				c := &command{N: n}
				switch gens.Uni(t, "cost", 0, 3) {
				case 0:
					c.Args = []string{"-add", "2"}
				case 1:
					c.Args = []string{"-double", "0.5"}
				}
				return c
			}},
		},
	})
}
