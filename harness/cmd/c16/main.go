// C16: names in built scripts are unique, legal and say what the value is.
package main

import (
	"fmt"
	"math/big"
	"regexp"
	"slices"

	"github.com/mmcloughlin/addchain/acc"
	"github.com/mmcloughlin/addchain/acc/ir"
	"github.com/mmcloughlin/addchain/acc/parse"
	"github.com/mmcloughlin/addchain/acc/pass"
	"github.com/mmcloughlin/addchain/acc/printer"
	"github.com/mmcloughlin/addchain/alg/ensemble"
	"pgregory.net/rapid"

	"github.com/mmcloughlin/addchain/verif/cli"
	"github.com/mmcloughlin/addchain/verif/conv"
	"github.com/mmcloughlin/addchain/verif/gens"
	"github.com/mmcloughlin/addchain/verif/pbt"
	"github.com/mmcloughlin/addchain/verif/ref"
)

type program struct {
	Ops  []ref.Op `json:"ops"`
	Note string   `json:"note,omitempty"`
}

var (
	binary = regexp.MustCompile(`^_([01]+)$`)
	runs   = regexp.MustCompile(`^x([0-9]+)$`)
	index  = regexp.MustCompile(`^i([0-9]+)$`)
)

func (c *program) Check(r *pbt.Rec) error {
	want, err := ref.Eval(c.Ops)
	if err != nil || !ref.Distinct(want) {
		return pbt.ErrInvalid
	}
	if c.Note != "" {
		r.Class("source:%s", c.Note)
	}
	p := conv.Program(c.Ops)
	return pbt.Catch(func() error {
		q, err := acc.Decompile(p)
		if err != nil {
			return fmt.Errorf("Decompile(%v): %v", p, err)
		}
		syntax, err := acc.Build(q)
		if err != nil {
			return fmt.Errorf("Build of %v: %v", p, err)
		}
		s, err := conv.FromAST(syntax)
		if err != nil {
			return err
		}
		n, err := names(r, s, want, nil)
		if err != nil {
			return fmt.Errorf("syntax tree built for %v: %v\n%v", p, err, s)
		}
		// The same names must be what the printed script shows.
		text, err := printer.String(syntax)
		if err != nil {
			return fmt.Errorf("printing the script of %v: %v", p, err)
		}
		if t, err := ref.Parse(text); err == nil {
			if _, err := names(r, t, want, nil); err != nil {
				return fmt.Errorf("script printed for %v: %v\n%s", p, err, text)
			}
		} else if tree, err := parse.String(text); err == nil {
			if t, err := conv.FromAST(tree); err == nil {
				if _, err := names(r, t, want, nil); err != nil {
					return fmt.Errorf("script printed for %v: %v\n%s", p, err, text)
				}
			}
		} else {
			r.Class("printed text not readable") // belongs to C04
		}
		if n >= 2 {
			r.NonTrivial()
		}
		r.Class("names<=%d", (n+7)/8*8)
		return nil
	})
}

// names checks the statements of a script built for a chain and returns the number
// of names it defines. own holds the elements that had names before.
func names(r *pbt.Rec, s ref.Script, want []*big.Int, own map[string]*big.Int) (int, error) {
	if len(s) == 0 {
		return 0, fmt.Errorf("no statements")
	}
	defined := map[string]int{}
	for i, st := range s {
		if i == len(s)-1 {
			if st.Name != "" {
				return 0, fmt.Errorf("final statement has name %q", st.Name)
			}
			break
		}
		if st.Name == "" {
			return 0, fmt.Errorf("statement %d has no name", i)
		}
		if j, dup := defined[st.Name]; dup {
			return 0, fmt.Errorf("statements %d and %d both define %q", j, i, st.Name)
		}
		if !ref.Legal(st.Name) {
			return 0, fmt.Errorf("%q is not a legal identifier", st.Name)
		}
		defined[st.Name] = i
	}
	// What each name denotes: evaluate the script up to its definition.
	l, err := ref.Load(s, 1<<20)
	if err != nil {
		r.Class("script does not evaluate") // belongs to C04
		return len(defined), nil
	}
	denotes, err := denotations(s, l)
	if err != nil {
		return 0, err
	}
	for name, val := range denotes {
		switch {
		case own[name] != nil && own[name].Cmp(val) == 0:
			r.Class("own name")
		case binary.MatchString(name):
			b, _ := new(big.Int).SetString(name[1:], 2)
			if b.Cmp(val) != 0 {
				return 0, fmt.Errorf("name %q denotes %v", name, val)
			}
			r.Class("binary name")
		case runs.MatchString(name):
			k, ok := new(big.Int).SetString(name[1:], 10)
			if !ok || !k.IsInt64() || k.Int64() > 1<<20 || ref.Ones(uint(k.Int64())).Cmp(val) != 0 {
				return 0, fmt.Errorf("name %q denotes %v", name, val)
			}
			r.Class("run name")
		case index.MatchString(name):
			k, ok := new(big.Int).SetString(name[1:], 10)
			if !ok || !k.IsInt64() || k.Int64() >= int64(len(want)) || want[k.Int64()].Cmp(val) != 0 {
				return 0, fmt.Errorf("name %q denotes %v, chain %v", name, val, want)
			}
			r.Class("index name")
		default:
			r.Class("other name")
		}
	}
	return len(defined), nil
}

// denotations evaluates prefixes of the script to find the element each name denotes.
func denotations(s ref.Script, l *ref.Loaded) (map[string]*big.Int, error) {
	out := map[string]*big.Int{}
	vals := map[string]*big.Int{}
	var eval func(e *ref.Expr) *big.Int
	eval = func(e *ref.Expr) *big.Int {
		switch e.K {
		case "o":
			return l.Chain[e.Idx]
		case "i":
			return vals[e.Name]
		case "+":
			return new(big.Int).Add(eval(e.X), eval(e.Y))
		case "d":
			return new(big.Int).Lsh(eval(e.X), 1)
		}
		return new(big.Int).Lsh(eval(e.X), uint(e.S))
	}
	if l.BareMissing {
		return nil, fmt.Errorf("a statement names an element that does not exist")
	}
	for _, st := range s[:len(s)-1] {
		v := eval(st.Expr)
		vals[st.Name] = v
		out[st.Name] = v
	}
	return out, nil
}

func (c *program) Shrinks() []pbt.Case {
	var out []pbt.Case
	for _, o := range gens.ShrinkOps(c.Ops) {
		out = append(out, &program{Ops: o})
	}
	return out
}

// script is a script with names of its own, built again.
type script struct {
	S    ref.Script `json:"s"`
	Mode int        `json:"mode"`
}

// Ways from the script to the one built from it.
const (
	translated = iota
	loaded
	allocated
	twice
	command
	modes
)

func (c *script) build(r *pbt.Rec) (ref.Script, error) {
	source := conv.ToAST(c.S)
	var p *ir.Program
	switch c.Mode {
	case loaded, command:
		text, err := printer.String(source)
		if err != nil {
			return nil, fmt.Errorf("printing: %v", err)
		}
		if c.Mode == command {
			if cli.Bin() == "" {
				return nil, nil
			}
			res := cli.Run(cli.Bin(), cli.Limits{}, text, "fmt", "-b")
			if res.Code != 0 {
				return nil, fmt.Errorf("fmt -b: %v", res)
			}
			tree, err := ref.Parse(res.Stdout)
			if err != nil {
				return nil, fmt.Errorf("output of fmt -b: %v\n%s", err, res.Stdout)
			}
			return tree, nil
		}
		if p, err = acc.LoadString(text); err != nil {
			return nil, fmt.Errorf("loading %q: %v", text, err)
		}
	default:
		var err error
		if p, err = acc.Translate(source); err != nil {
			return nil, fmt.Errorf("Translate: %v", err)
		}
		if c.Mode == allocated && len(p.Instructions) > 0 {
			if err := (pass.Allocator{Input: "x", Output: "z", Format: "t%d"}).Execute(p); err != nil {
				return nil, fmt.Errorf("Allocator: %v", err)
			}
		}
		if c.Mode == twice {
			if _, err := acc.Build(p); err != nil {
				return nil, fmt.Errorf("Build: %v", err)
			}
		}
	}
	syntax, err := acc.Build(p)
	if err != nil {
		return nil, fmt.Errorf("Build: %v", err)
	}
	return conv.FromAST(syntax)
}

func (c *script) Check(r *pbt.Rec) error {
	if c.Mode < 0 || c.Mode >= modes || len(c.S) == 0 {
		return pbt.ErrInvalid
	}
	l, err := ref.Load(c.S, 1<<12)
	if err != nil || l.BareMissing || l.ZeroShift || !ref.Distinct(l.Chain) {
		return pbt.ErrInvalid
	}
	own, err := denotations(c.S, l)
	if err != nil {
		return pbt.ErrInvalid
	}
	// An element with two names is refused.
	elements := map[string]string{}
	for name, val := range own {
		if other, dup := elements[val.Text(62)]; dup && other != name {
			return pbt.ErrInvalid
		}
		elements[val.Text(62)] = name
	}
	if c.Mode == allocated {
		own = map[string]*big.Int{} // the allocator deletes all names
	}
	r.Class("mode %d", c.Mode)
	return pbt.Catch(func() error {
		s, err := c.build(r)
		if err != nil {
			return fmt.Errorf("script %v (way %d): %v", c.S, c.Mode, err)
		}
		if s == nil {
			return nil
		}
		n, err := names(r, s, l.Chain, own)
		if err != nil {
			return fmt.Errorf("built from script %v (way %d): %v\n%v", c.S, c.Mode, err, s)
		}
		if n >= 2 {
			r.NonTrivial()
		}
		return nil
	})
}

func (c *script) Shrinks() []pbt.Case {
	var out []pbt.Case
	for i := range c.S {
		out = append(out, &script{append(slices.Clone(c.S[:i]), c.S[i+1:]...), c.Mode})
	}
	for m := 0; m < c.Mode; m++ {
		out = append(out, &script{c.S, m})
	}
	return out
}

// member is the result of an ensemble member for a target.
type member struct {
	N   *big.Int `json:"n"`
	Ens int      `json:"ens"`
}

func (c *member) Check(r *pbt.Rec) error {
	if c.N.Sign() <= 0 {
		return pbt.ErrInvalid
	}
	as := ensemble.Ensemble()
	if len(as) == 0 {
		return pbt.ErrInvalid
	}
	a := as[((c.Ens%len(as))+len(as))%len(as)]
	var ops []ref.Op
	err := pbt.Catch(func() error {
		ch, err := a.FindChain(c.N)
		if err != nil {
			return err
		}
		if err := ref.CheckChain(ch); err != nil {
			return err
		}
		p, err := ch.Program()
		if err != nil {
			return err
		}
		for _, op := range p {
			ops = append(ops, ref.Op{I: op.I, J: op.J})
		}
		return nil
	})
	if err != nil {
		r.Class("algorithm failed") // belongs to C01
		return nil
	}
	return (&program{Ops: ops, Note: "algorithm"}).Check(r)
}

// named draws programs rich in the values that get special names: all-ones values
// below and above 2^8, values below 2^8, powers of two around 2^8, in chains where
// many elements are read several times so that they need names.
func named(t *rapid.T) pbt.Case {
	vals := []*big.Int{big.NewInt(1)}
	seen := map[string]bool{"1": true}
	var ops []ref.Op
	idx := map[string]int{"1": 0}
	push := func(i, j int) int {
		z := new(big.Int).Add(vals[i], vals[j])
		k := z.Text(62)
		if seen[k] {
			return idx[k]
		}
		seen[k] = true
		vals = append(vals, z)
		ops = append(ops, ref.Op{I: i, J: j})
		idx[k] = len(vals) - 1
		return len(vals) - 1
	}
	n := gens.Uni(t, "steps", 1, gens.Pick(t, "size", 4, 10, 24))
	var onesAt []int // elements that are 2^k - 1
	onesAt = append(onesAt, 0)
	for s := 0; s < n; s++ {
		switch gens.Uni(t, "what", 0, 5) {
		case 0, 1: // join two runs: ones(a+b) = ones(a)<<b + ones(b)
			a := onesAt[gens.Uni(t, "a", 0, len(onesAt)-1)]
			b := onesAt[gens.Uni(t, "b", 0, len(onesAt)-1)]
			if vals[a].BitLen()+vals[b].BitLen() > 300 {
				continue
			}
			x := a
			for i := 0; i < vals[b].BitLen(); i++ {
				x = push(x, x)
			}
			if rapid.Bool().Draw(t, "swap") {
				x = push(b, x)
			} else {
				x = push(x, b)
			}
			onesAt = append(onesAt, x)
		case 2: // a small value
			i, j := gens.Uni(t, "i", 0, min(len(vals)-1, 8)), gens.Uni(t, "j", 0, min(len(vals)-1, 8))
			push(i, j)
		case 3: // re-use
			push(gens.Uni(t, "i", 0, len(vals)-1), gens.Uni(t, "j", 0, len(vals)-1))
		case 4: // double something
			i := gens.Uni(t, "i", 0, len(vals)-1)
			push(i, i)
		case 5: // increment or near-run
			i := onesAt[gens.Uni(t, "i", 0, len(onesAt)-1)]
			push(i, gens.Uni(t, "j", 0, len(vals)-1))
		}
	}
	if len(ops) == 0 {
		push(0, 0)
	}
	return &program{Ops: ops, Note: "named"}
}

func main() {
	pbt.Main(&pbt.Spec{
		ID:   "C16",
		Rule: "A case is a duplicate-free program of additions, an algorithm result, or a script with names of its own (many of the form that the tool generates, right or wrong) that is translated or loaded and built again; it is non-trivial when its script defines at least two names. Oracle: uniqueness, exactly the last statement unnamed, own identifier recogniser, and own evaluation of the script to find what each _b, xN and iN name denotes (iN against the index in the original chain; a name that the source script gave the same element is the user's).",
		Kinds: map[string]func() pbt.Case{
			"program": func() pbt.Case { return &program{} },
			"member":  func() pbt.Case { return &member{} },
			"script":  func() pbt.Case { return &script{} },
		},
		Sections: []pbt.Section{
			{Name: "all-programs", Enum: func(e *pbt.Enum) {
				for n := 0; n <= 6; n++ {
					gens.EnumOps(n, true, e.Mine, func(ops []ref.Op, _ []int64) bool {
						return e.Do(&program{Ops: slices.Clone(ops)})
					})
				}
				if e.Tier == pbt.Thorough {
					gens.EnumOps(7, true, e.Mine, func(ops []ref.Op, _ []int64) bool {
						return e.Do(&program{Ops: slices.Clone(ops)})
					})
				}
			}},
			{Name: "large", CaseCPU: 300, Shards: 32, Enum: func(e *pbt.Enum) {
				for _, n := range pbt.Pick(e.Tier, []int{2049, 4097}, []int{1500, 2047, 2048, 2049, 4095, 4096, 4097, 10001}) {
					if !gens.LadderOpsAt(n, e.Mine, func(ops []ref.Op, note string) bool { return e.Do(&program{Ops: ops, Note: note}) }) {
						return
					}
				}
			}},
			{Name: "ladder", Enum: func(e *pbt.Enum) {
				gens.LadderOps(pbt.Pick(e.Tier, 70, 300), pbt.Pick(e.Tier, 300, 1025), e.Mine, func(ops []ref.Op, note string) bool {
					return e.Do(&program{Ops: ops, Note: note})
				})
			}},
			{Name: "special-values", N: 24000, Gen: named},
			{Name: "random-programs", Fuzz: 90, N: 16000, Gen: func(t *rapid.T) pbt.Case {
				ops, style := gens.Ops(t, gens.Pick(t, "max", 6, 12, 30, 60, 200))
				return &program{Ops: ops, Note: style}
			}},
			{Name: "scripts-with-names", Fuzz: 90, N: 24000, Gen: func(t *rapid.T) pbt.Case {
				ops, _ := gens.Ops(t, gens.Pick(t, "max", 4, 8, 16, 40))
				mode := translated
				switch k := gens.Uni(t, "mode", 0, 79); {
				case k == 0:
					mode = command
				case k < 10:
					mode = loaded
				case k < 20:
					mode = allocated
				case k < 30:
					mode = twice
				}
				return &script{gens.NamedScript(t, ops), mode}
			}},
			{Name: "algorithm-results", N: 4000, Gen: func(t *rapid.T) pbt.Case {
				n, _ := gens.Target(t, gens.Pick(t, "bits", 8, 16, 64, 128, 256))
				return &member{N: n, Ens: gens.Uni(t, "ens", 0, 255)}
			}},
		},
	})
}
