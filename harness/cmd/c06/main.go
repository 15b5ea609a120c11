// C06: generated listings, run literally, compute the script's chain or are refused.
package main

import (
	"bytes"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/mmcloughlin/addchain/acc"
	"github.com/mmcloughlin/addchain/acc/parse"
	"github.com/mmcloughlin/addchain/acc/pass"
	"github.com/mmcloughlin/addchain/alg/ensemble"
	"github.com/mmcloughlin/addchain/internal/gen"
	"pgregory.net/rapid"

	"github.com/mmcloughlin/addchain/verif/gens"
	"github.com/mmcloughlin/addchain/verif/pbt"
	"github.com/mmcloughlin/addchain/verif/ref"
)

// script is a source text for the generator.
type script struct {
	Src    string `json:"src"`
	Naming int    `json:"naming,omitempty"`
	CLI    bool   `json:"cli,omitempty"`
	Note   string `json:"note,omitempty"`

	max int // operations, if not maxOps
}

var namings = []pass.Allocator{
	{Input: "x", Output: "z", Format: "t%d"},
	{Input: "in", Output: "out", Format: "tmp%02d"},
	{Input: "a", Output: "r", Format: "v[%d]"},
	{Input: "t0", Output: "tmp00", Format: "x%d"},
	{Input: "v[0]", Output: "t1", Format: "in%d"},
}

const maxOps = 3000

func (c *script) Check(r *pbt.Rec) error {
	limit := max(maxOps, c.max)
	if len(c.Src) > 1<<16 && c.max == 0 {
		return pbt.ErrInvalid
	}
	if c.Note != "" {
		r.Class("source:%s", c.Note)
	}
	tree, err := ref.Parse(c.Src)
	if err != nil {
		r.Class("does not parse")
		return nil
	}
	want, lerr := ref.Load(tree, limit)
	if lerr == ref.ErrTooLong {
		return nil
	}
	a := namings[((c.Naming%len(namings))+len(namings))%len(namings)]
	outputs := map[string]string{}
	accepted := false
	err = pbt.Catch(func() error {
		if c.CLI {
			var err error
			a = namings[0]
			outputs, err = command(c.Src)
			if err != nil {
				return err
			}
			accepted = outputs != nil
			return nil
		}
		s, err := parse.String(c.Src)
		if err != nil {
			return nil // belongs to C03
		}
		d, err := gen.PrepareData(gen.Config{Allocator: a}, s)
		if err != nil {
			return nil
		}
		accepted = true
		for _, typ := range []string{"listing", "chain", "ops", "script"} {
			tmpl, err := gen.BuiltinTemplate(typ)
			if err != nil {
				return fmt.Errorf("template %s: %v", typ, err)
			}
			var buf bytes.Buffer
			if err := gen.Generate(&buf, tmpl, d); err != nil {
				return fmt.Errorf("%q: template %s: %v", c.Src, typ, err)
			}
			outputs[typ] = buf.String()
		}
		return nil
	})
	if err != nil {
		return err
	}
	dangling := lerr == nil && want.Dangling
	switch {
	case !accepted && lerr != nil:
		r.Class("illegal, refused")
		return nil
	case !accepted && dangling:
		r.Class("reads shift intermediates, refused")
		r.NonTrivial()
		return nil
	case !accepted && len(want.Ops) == 0:
		r.Class("no operations, refused")
		return nil
	case !accepted:
		r.Class("legal, refused")
		return nil
	case lerr != nil:
		return fmt.Errorf("%q denotes no chain (%v) but code is generated:\n%s", c.Src, lerr, outputs["listing"])
	}
	r.Class("accepted")
	if dangling {
		r.Class("reads shift intermediates, accepted")
	}
	if err := listing(outputs["listing"], a, want, limit); err != nil {
		return fmt.Errorf("%q: %v\n%s", c.Src, err, outputs["listing"])
	}
	if err := chain(outputs["chain"], want); err != nil {
		return fmt.Errorf("%q: chain output: %v\n%s", c.Src, err, outputs["chain"])
	}
	if err := ops(outputs["ops"], want); err != nil {
		return fmt.Errorf("%q: ops output: %v\n%s", c.Src, err, outputs["ops"])
	}
	l, err := acc.LoadString(outputs["script"])
	if err != nil {
		return fmt.Errorf("%q: script output does not load: %v\n%s", c.Src, err, outputs["script"])
	}
	if !ref.Equal(l.Chain, want.Chain) {
		return fmt.Errorf("%q: script output loads to %v, want %v\n%s", c.Src, l.Chain, want.Chain, outputs["script"])
	}
	if len(want.Instrs) >= 2 {
		r.NonTrivial()
	}
	r.Class("instructions<=%d", (len(want.Instrs)+7)/8*8)
	return nil
}

// listing parses the documented line format and runs it.
func listing(s string, a pass.Allocator, want *ref.Loaded, limit int) error {
	var ins []ref.RegInstr
	var temps []string
	tmps := 0
	for _, line := range strings.Split(s, "\n") {
		f := strings.Fields(line)
		if len(f) == 0 {
			continue
		}
		bad := fmt.Errorf("line %q is not in the documented format", line)
		switch f[0] {
		case "tmp":
			if len(ins) > 0 {
				return fmt.Errorf("declaration after instructions: %q", line)
			}
			tmps++
			temps = append(temps, f[1:]...)
		case "add":
			if len(f) != 4 {
				return bad
			}
			ins = append(ins, ref.RegInstr{K: "+", Out: f[1], X: f[2], Y: f[3]})
		case "double":
			if len(f) != 3 {
				return bad
			}
			ins = append(ins, ref.RegInstr{K: "d", Out: f[1], X: f[2]})
		case "shift":
			if len(f) != 4 {
				return bad
			}
			n, err := strconv.ParseUint(f[3], 10, 64)
			if err != nil || n > uint64(2*limit) {
				return bad
			}
			ins = append(ins, ref.RegInstr{K: "s", Out: f[1], X: f[2], S: n})
		default:
			return bad
		}
	}
	for _, alias := range []bool{false, true} {
		got, err := ref.RunRegisters(ins, a.Input, a.Output, temps, alias)
		if err != nil {
			return fmt.Errorf("listing, aliased=%v: %v", alias, err)
		}
		if w := want.Chain[len(want.Chain)-1]; got.Cmp(w) != 0 {
			return fmt.Errorf("listing, aliased=%v: computes %v, want %v", alias, got, w)
		}
	}
	return nil
}

func lines(s string) []string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.TrimSpace(l) != "" {
			out = append(out, l)
		}
	}
	return out
}

func hex(s string) (*big.Int, bool) {
	if !strings.HasPrefix(s, "0x") {
		return nil, false
	}
	return new(big.Int).SetString(s[2:], 16)
}

func chain(s string, want *ref.Loaded) error {
	ls := lines(s)
	if len(ls) != len(want.Chain) {
		return fmt.Errorf("%d lines for %d elements", len(ls), len(want.Chain))
	}
	for i, l := range ls {
		f := strings.Fields(l)
		if len(f) != 2 || f[0] != fmt.Sprintf("%d:", i+1) {
			return fmt.Errorf("line %q for element number %d", l, i+1)
		}
		v, ok := hex(f[1])
		if !ok || v.Cmp(want.Chain[i]) != 0 {
			return fmt.Errorf("line %q, want value %#x", l, want.Chain[i])
		}
	}
	return nil
}

func ops(s string, want *ref.Loaded) error {
	ls := lines(s)
	if len(ls) != len(want.Ops) {
		return fmt.Errorf("%d lines for %d operations", len(ls), len(want.Ops))
	}
	for k, l := range ls {
		f := strings.Fields(strings.NewReplacer("[", " ", "]", " ", "+", " + ").Replace(l))
		if len(f) != 5 || f[0] != strconv.Itoa(k) || f[2] != "+" {
			return fmt.Errorf("line %q for operation %d", l, k)
		}
		i, err1 := strconv.Atoi(f[1])
		j, err2 := strconv.Atoi(f[3])
		v, ok := hex(f[4])
		o := want.Ops[k]
		if err1 != nil || err2 != nil || !ok || v.Cmp(want.Chain[k+1]) != 0 || !(i == o.I && j == o.J || i == o.J && j == o.I) {
			return fmt.Errorf("line %q, want operation %v with value %#x", l, o, want.Chain[k+1])
		}
	}
	return nil
}

// command runs `addchain gen` for every builtin type; nil when it refuses.
func command(src string) (map[string]string, error) {
	bin := os.Getenv("VERIF_ADDCHAIN")
	if bin == "" {
		return nil, pbt.ErrInvalid
	}
	dir, err := os.MkdirTemp("", "verif-c06-")
	if err != nil {
		return nil, pbt.ErrInvalid
	}
	defer os.RemoveAll(dir)
	out := map[string]string{}
	refused := 0
	for k, typ := range []string{"", "listing", "chain", "ops", "script"} {
		args := []string{"gen"}
		if typ != "" {
			args = append(args, "-type", typ)
		}
		in := filepath.Join(dir, "in.acc")
		dst := filepath.Join(dir, "out")
		if k%2 == 1 {
			if err := os.WriteFile(in, []byte(src), 0o644); err != nil {
				return nil, pbt.ErrInvalid
			}
			if err := os.WriteFile(dst, []byte(strings.Repeat("old\tcontent\n", 40+len(src))), 0o644); err != nil {
				return nil, pbt.ErrInvalid
			}
			args = append(args, "-out", dst, in)
		}
		cmd := exec.Command(bin, args...)
		if k%2 == 0 {
			cmd.Stdin = strings.NewReader(src)
		}
		var stdout, stderr bytes.Buffer
		cmd.Stdout, cmd.Stderr = &stdout, &stderr
		if err := cmd.Run(); err != nil {
			refused++
			if stderr.Len() == 0 || strings.Contains(stderr.String(), "goroutine ") {
				return nil, fmt.Errorf("gen %v of %q: %v\n%s", args, src, err, stderr.String())
			}
			continue
		}
		text := stdout.String()
		if k%2 == 1 {
			b, err := os.ReadFile(dst)
			if err != nil {
				return nil, fmt.Errorf("gen %v of %q writes no output: %v", args, src, err)
			}
			text = string(b)
		}
		if typ == "" {
			typ = "listing"
		} else if prev, ok := out[typ]; ok && prev != text {
			return nil, fmt.Errorf("gen %v of %q: output differs from the default type's", args, src)
		}
		out[typ] = text
	}
	if refused > 0 && refused < 5 {
		return nil, fmt.Errorf("gen of %q is refused for some types only", src)
	}
	if refused > 0 {
		return nil, nil
	}
	return out, nil
}

func (c *script) Shrinks() []pbt.Case {
	var out []pbt.Case
	for _, s := range gens.ShrinkText(c.Src) {
		out = append(out, &script{Src: s, Naming: c.Naming, CLI: c.CLI})
	}
	return out
}

// member is the built script of an ensemble member's result.
type member struct {
	N   *big.Int `json:"n"`
	Ens int      `json:"ens"`
}

func (c *member) Check(r *pbt.Rec) error {
	if c.N.Cmp(ref.One) <= 0 {
		return pbt.ErrInvalid
	}
	as := ensemble.Ensemble()
	if len(as) == 0 {
		return pbt.ErrInvalid
	}
	src := ""
	err := pbt.Catch(func() error {
		ch, err := as[((c.Ens%len(as))+len(as))%len(as)].FindChain(c.N)
		if err != nil {
			return err
		}
		p, err := ch.Program()
		if err != nil {
			return err
		}
		q, err := acc.Decompile(p)
		if err != nil {
			return err
		}
		src, err = acc.String(q)
		return err
	})
	if err != nil {
		r.Class("no script") // belongs to C01, C04
		return nil
	}
	return (&script{Src: src, Note: "algorithm", Naming: c.Ens % 3}).Check(r)
}

// large is a script with one size up to 2^16: instructions, temporaries or the amount of
// a shift. Nothing is known to refuse such scripts, so that is counted.
type large struct {
	Form int  `json:"form"`
	N    int  `json:"n"`
	CLI  bool `json:"cli,omitempty"`
}

func (c *large) Shrinks() []pbt.Case {
	return []pbt.Case{&large{c.Form, c.N / 2, c.CLI}, &large{c.Form, c.N - c.N/8, c.CLI}, &large{c.Form, c.N - 1, c.CLI}}
}

func (c *large) Check(r *pbt.Rec) error {
	if c.Form < 0 || c.Form > gens.LargeForms || c.N < 2 || c.N > 1<<17 {
		return pbt.ErrInvalid
	}
	src := "return 1" + strings.Repeat(" + 1", c.N) + "\n"
	if c.Form < gens.LargeForms {
		src = source(gens.LargeInstrs(c.Form, c.N))
	}
	if err := (&script{Src: src, Naming: c.N % 3, CLI: c.CLI, Note: "large", max: 1 << 18}).Check(r); err != nil {
		s := err.Error()
		if len(s) > 600 {
			s = s[:300] + " ... " + s[len(s)-300:]
		}
		return fmt.Errorf("form %d of size %d: %s", c.Form, c.N, s)
	}
	return nil
}

// enumScripts lists scripts of n statements, one operation each, whose operands are
// any elements of the chain so far, shift intermediates included. form selects how
// operands are written: by index or, where there is one, by name.
func enumScripts(n int, mine func() bool, f func(string) bool) {
	type elem struct{ text string }
	var rec func(src string, elems []elem, k int) bool
	rec = func(src string, elems []elem, k int) bool {
		if k == min(n, 2) && !mine() {
			return true
		}
		if k == n {
			return f(src)
		}
		head := fmt.Sprintf("s%d = ", k)
		if k == n-1 {
			head = "return "
		}
		name := fmt.Sprintf("s%d", k)
		next := func(expr string, add int) bool {
			es := append([]elem{}, elems...)
			for i := 1; i < add; i++ {
				es = append(es, elem{fmt.Sprintf("[%d]", len(es))})
			}
			es = append(es, elem{name})
			return rec(src+head+expr+"\n", es, k+1)
		}
		for i, x := range elems {
			if !next("2*"+x.text, 1) || !next(x.text+" << 2", 2) || !next(x.text+" << 3", 3) {
				return false
			}
			for _, y := range elems[:i+1] {
				if !next(x.text+" + "+y.text, 1) {
					return false
				}
			}
		}
		return true
	}
	rec("", []elem{{"1"}}, 0)
}

func main() {
	opts := func(t *rapid.T) gens.ScriptOpts {
		return gens.ScriptOpts{
			MaxStmts: gens.Pick(t, "maxstmts", 2, 5, 12, 25), MaxDepth: gens.Pick(t, "maxdepth", 1, 2, 4, 6),
			MaxShift: gens.Pick(t, "maxshift", 2, 5, 40), MaxOps: 500, Illegal: gens.Pick(t, "illegal", 0, 0, 0, 10),
			Index: gens.Pick(t, "index", 0, 30, 200), Dangling: gens.Uni(t, "dangling", 0, 3) == 0, Names: gens.Uni(t, "names", 0, 1),
		}
	}
	pbt.Main(&pbt.Spec{
		ID:          "C06",
		Rule:        "A case is a source text given to the generator; it is non-trivial when code is generated for at least 2 instructions, or when it reads an intermediate of a shift and is refused. Oracle: own evaluation of the script; the listing is parsed by its documented format and run on own registers with separate and aliased output; chain and ops outputs are compared line by line; the script output is re-loaded.",
		Assumptions: []string{"Refusing a script is never a violation of this property.", "The final chain value is the last element of the evaluated chain."},
		Kinds: map[string]func() pbt.Case{
			"script": func() pbt.Case { return &script{} },
			"large":  func() pbt.Case { return &large{} },
			"member": func() pbt.Case { return &member{} },
		},
		Sections: []pbt.Section{
			{Name: "all-short-scripts", Enum: func(e *pbt.Enum) {
				for n := 1; n <= pbt.Pick(e.Tier, 3, 4); n++ {
					enumScripts(n, e.Mine, func(s string) bool { return e.Do(&script{Src: s}) })
				}
			}},
			{Name: "ladder", Enum: func(e *pbt.Enum) {
				gens.LadderInstrs(pbt.Pick(e.Tier, 40, 130), pbt.Pick(e.Tier, 130, 300), e.Mine, func(ins []ref.ValInstr, note string) bool {
					return e.Do(&script{Src: source(ins), Naming: len(ins) % 3, Note: note})
				})
			}},
			{Name: "large", Shards: 6, CaseCPU: 600, Enum: func(e *pbt.Enum) {
				for _, n := range []int{1000, 4095, 4096, 4097, 8192, 10001, 65536, 70000} {
					for f := 0; f <= gens.LargeForms; f++ {
						if f < gens.LargeForms && n > pbt.Pick(e.Tier, 4097, 10001) && (n > 10001 || f != 3 && f != 4) {
							continue
						}
						if e.Mine() && !e.Do(&large{f, n, (f+n)%4 == 0}) {
							return
						}
					}
				}
			}},
			{Name: "random-scripts", Fuzz: 90, N: 12000, Gen: func(t *rapid.T) pbt.Case {
				return &script{Src: gens.Render(t, gens.Script(t, opts(t)), false), Naming: gens.Uni(t, "naming", 0, 2), Note: "random"}
			}},
			{Name: "instruction-lists", Fuzz: 90, N: 8000, Gen: func(t *rapid.T) pbt.Case {
				ins, style := gens.Instrs(t, gens.Pick(t, "max", 6, 15, 40), rapid.Bool().Draw(t, "used"))
				return &script{Src: source(ins), Naming: gens.Uni(t, "naming", 0, 2), Note: style}
			}},
			{Name: "algorithm-results", N: 3000, Gen: func(t *rapid.T) pbt.Case {
				n, _ := gens.Target(t, gens.Pick(t, "bits", 8, 16, 64, 128, 256))
				return &member{N: n.Add(n, ref.One), Ens: gens.Uni(t, "ens", 0, 255)}
			}},
			{Name: "gen-command", N: 160, Seconds: 20, Gen: func(t *rapid.T) pbt.Case {
				return &script{Src: gens.Render(t, gens.Script(t, opts(t)), false), CLI: true}
			}},
		},
	})
}

// source writes an instruction list as a script, one statement per instruction.
func source(ins []ref.ValInstr) string {
	var b strings.Builder
	name := func(i int) string {
		if i == 0 {
			return "1"
		}
		return fmt.Sprintf("v%d", i)
	}
	for k, v := range ins {
		if k == len(ins)-1 {
			b.WriteString("return ")
		} else {
			fmt.Fprintf(&b, "%s = ", name(v.Out))
		}
		switch v.K {
		case "+":
			fmt.Fprintf(&b, "%s + %s\n", name(v.X), name(v.Y))
		case "d":
			fmt.Fprintf(&b, "2*%s\n", name(v.X))
		case "s":
			fmt.Fprintf(&b, "%s << %d\n", name(v.X), v.S)
		}
	}
	return b.String()
}
