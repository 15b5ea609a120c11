// C03: loading a script yields the chain defined by the published grammar and semantics.
package main

import (
	"errors"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing/iotest"

	"github.com/mmcloughlin/addchain/acc"
	"github.com/mmcloughlin/addchain/acc/ast"
	"github.com/mmcloughlin/addchain/acc/ir"
	"github.com/mmcloughlin/addchain/acc/parse"
	"github.com/mmcloughlin/addchain/acc/pass"
	"pgregory.net/rapid"

	"github.com/mmcloughlin/addchain/verif/conv"
	"github.com/mmcloughlin/addchain/verif/gens"
	"github.com/mmcloughlin/addchain/verif/pbt"
	"github.com/mmcloughlin/addchain/verif/ref"
)

// text is a source text; it is kept as bytes since it need not be valid UTF-8.
type text struct {
	Src  []byte `json:"src_base64"`
	Show string `json:"show"`
	Note string `json:"note,omitempty"`
	CLI  bool   `json:"cli,omitempty"`
	// Files also loads the text from a file.
	Files bool `json:"files,omitempty"`
	Long  bool `json:"long,omitempty"` // up to maxLong bytes
}

const maxLong = 1 << 20

func mk(src, note string) *text {
	return &text{Src: []byte(src), Show: fmt.Sprintf("%q", src), Note: note}
}

const maxOps = 3000

func (c *text) Check(r *pbt.Rec) error {
	src := string(c.Src)
	if len(src) > 1<<16 && !c.Long || len(src) > maxLong {
		return pbt.ErrInvalid
	}
	if c.Note != "" {
		r.Class("source:%s", c.Note)
	}
	want, perr := ref.Parse(src)
	if c.Files {
		if err := pbt.Catch(func() error { return files(src) }); err != nil {
			return err
		}
	}
	return pbt.Catch(func() error {
		tree, err := parse.String(src)
		if (err == nil) != (perr == nil) {
			return fmt.Errorf("parsing %q: tool says %v, grammar says %v", brief(src), err, perr)
		}
		if perr != nil {
			r.Class("outside the grammar")
			if l, err := acc.LoadString(src); err == nil {
				return fmt.Errorf("%q is outside the grammar (%v) but loads to %v", brief(src), perr, l.Chain)
			}
			if c.CLI {
				return refused(src)
			}
			return nil
		}
		got, err := conv.FromAST(tree)
		if err != nil {
			return fmt.Errorf("parsing %q: %v", brief(src), err)
		}
		if got.String() != want.String() {
			return fmt.Errorf("parsing %q: tree\n%swant\n%s", brief(src), got, want)
		}
		m, merr := ref.Load(want, maxOps)
		if merr == ref.ErrTooLong {
			r.Class("too long")
			return nil
		}
		l, err := acc.LoadString(src)
		if merr != nil {
			r.Class("rejected by the semantics")
			r.NonTrivial()
			if err == nil {
				return fmt.Errorf("%q must be rejected (%v) but loads to %v", brief(src), merr, l.Chain)
			}
			if c.CLI {
				if err := refused(src); err != nil {
					return err
				}
			}
			// Trying again does not help either.
			if p, err := acc.Translate(tree); err == nil && pass.Eval(p) != nil && pass.Eval(p) == nil {
				return fmt.Errorf("%q must be rejected (%v) but the second evaluation yields %v", brief(src), merr, p.Chain)
			}
			return nil
		}
		if m.ZeroShift {
			r.Class("zero shift") // outcome not defined
			return nil
		}
		if m.BareMissing {
			r.Class("bare reference to a missing element")
			if err != nil {
				return nil
			}
			return compare(src, l, m)
		}
		if err != nil {
			return fmt.Errorf("loading %q: %v; it denotes %v", brief(src), err, m.Chain)
		}
		if err := compare(src, l, m); err != nil {
			return err
		}
		r.Class("loads")
		if m.Dangling {
			r.Class("loads, reads shift intermediates")
		}
		if len(m.Ops) >= 2 {
			r.NonTrivial()
		}
		if len(src)%4 == 0 {
			// What was returned belongs to the caller, who may change it.
			for i := range tree.Statements {
				tree.Statements[i] = ast.Statement{Name: "x", Expr: ast.Operand(7)}
			}
			for _, x := range l.Chain {
				x.SetInt64(-7)
			}
			for _, i := range l.Instructions {
				for _, o := range i.Operands() {
					o.Index, o.Identifier = -1, "?"
				}
			}
			again, err := acc.LoadString(src)
			if err != nil {
				return fmt.Errorf("loading %q once more: %v", brief(src), err)
			}
			if err := compare(src, again, m); err != nil {
				return fmt.Errorf("once more: %w", err)
			}
		}
		if c.CLI {
			return command(src, m)
		}
		return nil
	})
}

func compare(src string, l *ir.Program, m *ref.Loaded) error {
	if !ref.Equal(l.Chain, m.Chain) {
		return fmt.Errorf("%q loads to %v, it denotes %v", brief(src), l.Chain, m.Chain)
	}
	if err := conv.SameOps(l.Program, m.Ops); err != nil {
		return fmt.Errorf("%q: %v", brief(src), err)
	}
	return nil
}

func brief(s string) string {
	if len(s) > 4000 {
		return s[:2000] + "..." + s[len(s)-2000:]
	}
	return s
}

// files loads the text from a file that held something else before, and from readers
// that deliver it in pieces; the outcome must be that of the string.
func files(src string) error {
	dir, err := os.MkdirTemp("", "verif-c03-")
	if err != nil {
		pbt.HarnessFailure(err.Error())
	}
	defer os.RemoveAll(dir)
	name := filepath.Join(dir, "script")
	earlier := "a = 1 + 1\nreturn a << 3\n"
	switch n := len(src); {
	case n%3 == 0:
		earlier = strings.Repeat("x", n) // as long, and not a script
	case n%3 == 1 && n > 3:
		earlier = "1" + strings.Repeat(" ", n-3) + "+1" // as long, and a script
	}
	if err := os.WriteFile(name, []byte(earlier), 0o644); err != nil {
		pbt.HarnessFailure(err.Error())
	}
	_, _ = parse.File(name)
	_, _ = acc.LoadFile(name)
	if err := os.WriteFile(name, []byte(src), 0o644); err != nil {
		pbt.HarnessFailure(err.Error())
	}
	show := brief(src)
	t1, err1 := parse.String(src)
	tree := ""
	if err1 == nil {
		s1, err := conv.FromAST(t1)
		if err != nil {
			return fmt.Errorf("parsing %q: %v", show, err)
		}
		tree = s1.String()
		if _, err := ref.Load(s1, maxOps); err == ref.ErrTooLong {
			return nil
		}
	}
	l1, lerr1 := acc.LoadString(src)
	check := func(how string, t *ast.Chain, err error, load func() (*ir.Program, error)) error {
		if (err1 == nil) != (err == nil) {
			return fmt.Errorf("parsing %q (%d bytes): %v, %s %v", show, len(src), err1, how, err)
		}
		if err1 == nil {
			s2, err := conv.FromAST(t)
			if err != nil {
				return fmt.Errorf("parsing %q %s: %v", show, how, err)
			}
			if s2.String() != tree {
				return fmt.Errorf("parsing %q (%d bytes) %s: tree\n%swant\n%s", show, len(src), how, s2, tree)
			}
		}
		l2, err2 := load()
		if (lerr1 == nil) != (err2 == nil) {
			return fmt.Errorf("loading %q (%d bytes): %v, %s %v", show, len(src), lerr1, how, err2)
		}
		if lerr1 == nil && (!ref.Equal(l1.Chain, l2.Chain) || len(l1.Program) != len(l2.Program)) {
			return fmt.Errorf("loading %q (%d bytes) %s: %v, want %v", show, len(src), how, l2.Chain, l1.Chain)
		}
		return nil
	}
	t2, err2 := parse.File(name)
	if err := check("from a file", t2, err2, func() (*ir.Program, error) { return acc.LoadFile(name) }); err != nil {
		return err
	}
	for k, wrap := range []func(io.Reader) io.Reader{iotest.OneByteReader, iotest.DataErrReader, pieces} {
		if k != len(src)%3 {
			continue
		}
		t2, err2 := parse.Reader("name", wrap(strings.NewReader(src)))
		if err := check("in pieces", t2, err2, func() (*ir.Program, error) { return acc.LoadReader("name", wrap(strings.NewReader(src))) }); err != nil {
			return err
		}
	}
	// A reader that breaks down: never the tree of a part of the text.
	cut := len(src) * (len(src) % 11) / 11
	broken := func() io.Reader {
		return io.MultiReader(strings.NewReader(src[:cut]), iotest.ErrReader(errors.New("breakdown")))
	}
	if t, err := parse.Reader("name", broken()); err == nil {
		if s, err := conv.FromAST(t); err != nil || err1 != nil || s.String() != tree {
			return fmt.Errorf("a reader that fails after %d bytes of %q: parses to\n%s", cut, show, s)
		}
	}
	if l, err := acc.LoadReader("name", broken()); err == nil {
		if lerr1 != nil || !ref.Equal(l.Chain, l1.Chain) {
			return fmt.Errorf("a reader that fails after %d bytes of %q: loads to %v", cut, show, l.Chain)
		}
	}
	return nil
}

// pieces delivers 509 bytes at a time.
func pieces(r io.Reader) io.Reader { return &chunked{r, 509} }

type chunked struct {
	r io.Reader
	n int
}

func (c *chunked) Read(b []byte) (int, error) {
	if len(b) > c.n {
		b = b[:c.n]
	}
	return c.r.Read(b)
}

// longTexts enumerates texts beyond the usual buffer sizes. What decides is at the end.
func longTexts(e *pbt.Enum) {
	for _, n := range pbt.Pick(e.Tier, []int{4096, 4097, 65535, 65536, 65537, 70000}, []int{4095, 4096, 4097, 32768, 65535, 65536, 65537, 70000, 150000, 262145, 700000}) {
		for k, f := range []func(end string) string{
			func(end string) string { return strings.Repeat(" ", n-len(end)) + end },
			func(end string) string { return "a = 1 + 1" + strings.Repeat("\t", n-9-1-len(end)) + "\n" + end },
			func(end string) string {
				return "a = 1 + 1\nb =" + strings.Repeat(" ", n-15-len(end)) + "a << 2\n" + end
			},
			func(end string) string {
				name := strings.Repeat("n", n-8-len(end))
				return name + " = 1 + 1\n" + end
			},
			func(end string) string {
				return "a = 1 << 0x" + strings.Repeat("0", max(0, n-14-len(end))) + "2\n" + end
			},
			func(end string) string { // many statements
				var b strings.Builder
				for i := 0; b.Len()+30+len(end) < n && i < maxOps-10; i++ {
					fmt.Fprintf(&b, "v%d = 1 + 1%s\n", i, strings.Repeat(" ", n/(maxOps-10)))
				}
				return b.String() + end
			},
		} {
			for _, end := range []string{"return 1 + 1", "return 1 + 1\n", "return 1 + 1\n\n", "return (1 + 1", "return 1 + nosuch", "return 1 + 1 1\n", "return 1 + 1 + 1 + 1 + 1 + 1\n", "b = 1 + 1"} {
				if e.Tier == pbt.Quick && n > 4097 && (len(end)+n)%3 != k%3 {
					continue
				}
				if !e.Mine() {
					continue
				}
				c := mk(f(end), fmt.Sprintf("long %d", k))
				c.Show = fmt.Sprintf("%d bytes ending in %q", len(c.Src), end)
				c.Files, c.Long = true, true
				c.CLI = k%2 == 0
				if !e.Do(c) {
					return
				}
			}
		}
	}
}

// refused runs `addchain eval` on a text that must be rejected.
func refused(src string) error {
	bin := os.Getenv("VERIF_ADDCHAIN")
	if bin == "" {
		return nil
	}
	cmd := exec.Command(bin, "eval")
	cmd.Stdin = strings.NewReader(src)
	out, err := cmd.Output()
	if err == nil {
		return fmt.Errorf("%q must be rejected, but eval succeeds and prints %q", src, out)
	}
	if len(out) > 0 {
		return fmt.Errorf("%q must be rejected; eval fails, but prints %q", src, out)
	}
	return nil
}

// command runs `addchain eval` and reads the chain it prints.
func command(src string, m *ref.Loaded) error {
	bin := os.Getenv("VERIF_ADDCHAIN")
	if bin == "" {
		return nil
	}
	cmd := exec.Command(bin, "eval")
	cmd.Stdin = strings.NewReader(src)
	var stderr strings.Builder
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	if err != nil {
		return fmt.Errorf("eval of %q: %v\n%s", src, err, stderr.String())
	}
	k := 0
	for _, line := range strings.Split(strings.TrimRight(string(out), "\n"), "\n") {
		if !strings.HasPrefix(line, "[") {
			continue
		}
		var n, i, j int
		var hex string
		if _, err := fmt.Sscanf(strings.NewReplacer("[", " ", "]", " ", "+", " ").Replace(line), "%d %d %d %s", &n, &i, &j, &hex); err != nil {
			return fmt.Errorf("eval of %q prints line %q: %v", src, line, err)
		}
		v, ok := new(big.Int).SetString(hex, 16)
		if !ok || n != k+1 || n > len(m.Ops) {
			return fmt.Errorf("eval of %q prints line %q", src, line)
		}
		o := m.Ops[k]
		if !(o.I == i && o.J == j || o.I == j && o.J == i) || v.Cmp(m.Chain[n]) != 0 {
			return fmt.Errorf("eval of %q prints line %q; want operation %v with value %x", src, line, o, m.Chain[n])
		}
		k++
	}
	if k != len(m.Ops) {
		return fmt.Errorf("eval of %q lists %d operations, want %d\n%s", src, k, len(m.Ops), out)
	}
	return nil
}

func (c *text) Shrinks() []pbt.Case {
	var out []pbt.Case
	for _, s := range gens.ShrinkText(string(c.Src)) {
		d := mk(s, "")
		d.CLI, d.Files, d.Long = c.CLI, c.Files, c.Long
		out = append(out, d)
	}
	return out
}

func scriptOpts(t *rapid.T, illegal int) gens.ScriptOpts {
	return gens.ScriptOpts{
		MaxStmts: gens.Pick(t, "maxstmts", 2, 4, 10), MaxDepth: gens.Pick(t, "maxdepth", 1, 2, 4, 7),
		MaxShift: gens.Pick(t, "maxshift", 2, 5, 40), MaxOps: 400, Illegal: illegal,
		Index: gens.Pick(t, "index", 30, 100, 255), Dangling: rapid.Bool().Draw(t, "dangling"),
		Names: gens.Uni(t, "names", 0, 2),
	}
}

// ladder takes regular scripts of growing size.
func ladder(e *pbt.Enum) {
	gens.Steps(pbt.Pick(e.Tier, 70, 300), pbt.Pick(e.Tier, 300, 1025), func(n int) bool {
		do := func(note, s string) bool {
			c := mk(s, "ladder "+note)
			c.Files = n < 40
			return !e.Mine() || e.Do(c)
		}
		var stmts, star, idx strings.Builder
		for i := 0; i < n; i++ {
			prev, last := "1", fmt.Sprintf("[%d]", i)
			if i > 0 {
				prev = fmt.Sprintf("v%d", i-1)
			}
			switch i % 4 {
			case 0:
				fmt.Fprintf(&stmts, "v%d = %s + %s\n", i, prev, prev)
			case 1:
				fmt.Fprintf(&stmts, "v%d\t=\tv%d\tadd 1\n", i, i/2)
			case 2:
				fmt.Fprintf(&stmts, "v%d = v%d << %d\n", i, i/2, i%9+1)
			case 3:
				fmt.Fprintf(&stmts, "v%d = 2*(v%d + %s)\r\n", i, i/3, prev)
			}
			fmt.Fprintf(&star, "s%d = %s add 1\n", i, last)
			if i > 0 {
				idx.WriteString(" + ")
			}
			fmt.Fprintf(&idx, "[%d]", i)
		}
		name := strings.Repeat("n", n)
		return do("sum", "return 1"+strings.Repeat(" + 1", n)+"\n") &&
			do("sum of a name", "a = 1 + 1\nreturn a"+strings.Repeat("+a", n)+"\n") &&
			do("statements", stmts.String()+fmt.Sprintf("return v%d + v%d\n", n-1, n/2)) &&
			do("indexes", star.String()+fmt.Sprintf("return [%d] + [%d]\n", n, n/2)) &&
			do("index out of range", star.String()+fmt.Sprintf("return [%d] + [%d]\n", n, n+1)) &&
			do("sum of indexes", star.String()+"return "+idx.String()+"\n") &&
			do("shift", fmt.Sprintf("a = 1 << %d\nreturn a + [%d]\n", n, n-1)) &&
			do("shift of a shift", fmt.Sprintf("return (1 << %d) << %d\n", n, (n+1)/2)) &&
			do("shift spelled", fmt.Sprintf("return (1 shl 0x%x) shl 0%o\n", n, n)) &&
			do("name", name+" = 1 + 1\n"+name+"x = "+name+" + 1\nreturn "+name+" + "+name+"x\n") &&
			do("undefined name", name+" = 1 + 1\nreturn "+name+"x\n") &&
			do("blanks", "return"+strings.Repeat(" ", n)+"1"+strings.Repeat("\t", n)+"+"+strings.Repeat(" ", n)+"1"+strings.Repeat("\n", n)) &&
			do("zeros", "return 1 << "+strings.Repeat("0", n)+"1\n") &&
			do("parentheses", "return "+strings.Repeat("(", n)+"1 + 1"+strings.Repeat(")", n)+"\n") &&
			do("doublings", "return "+strings.Repeat("2*(", n)+"1 + 1"+strings.Repeat(")", n)+"\n") &&
			do("right comb", "return "+strings.Repeat("1 + (", n)+"1"+strings.Repeat(")", n)+"\n") &&
			do("unbalanced", "return "+strings.Repeat("(", n)+"1 + 1"+strings.Repeat(")", n-1)+"\n") &&
			do("lines before", strings.Repeat("\n", n)+"return 1 + 1\n")
	})
}

// large is a regular script with one size up to 2^16 and beyond: the amount of a shift,
// the number of operations or of statements.
type large struct {
	F int `json:"f"`
	N int `json:"n"`
}

const maxLarge = 1 << 18

func (c *large) Shrinks() []pbt.Case {
	return []pbt.Case{&large{c.F, c.N / 2}, &large{c.F, c.N - c.N/8}, &large{c.F, c.N - 1}}
}

func (c *large) src() string {
	n := c.N
	switch c.F {
	case 0:
		return fmt.Sprintf("a = 1 << %d\nreturn a + [%d]\n", n, n-1)
	case 1:
		return fmt.Sprintf("a = 2*1\nb = (a shl 0x%x) add a\nreturn b + ([%d] + [%d])\n", n, n, n/2)
	case 2:
		return "return 1" + strings.Repeat(" + 1", n) + "\n"
	case 3:
		return "a = 1" + strings.Repeat("+1", n) + fmt.Sprintf("\nb = [%d] + a\nreturn [%d]+[%d]\n", n-1, n+1, n/3)
	case 4:
		return "a = 1" + strings.Repeat("+1", n) + fmt.Sprintf("\nreturn a + [%d]\n", n+1) // not there yet
	case 5:
		var b strings.Builder
		b.WriteString("v0 = 1 + 1\n")
		for i := 1; i < n; i++ {
			fmt.Fprintf(&b, "v%d = v%d + %d\n", i, i-1, 1)
		}
		fmt.Fprintf(&b, "return v%d + v%d\n", n/2, n-1)
		return b.String()
	case 6:
		var b strings.Builder
		b.WriteString("v0 = 1 + 1\n")
		for i := 1; i < n; i++ {
			fmt.Fprintf(&b, "v%d = v%d + [%d]\n", i, i-1, 0)
		}
		fmt.Fprintf(&b, "v%d = 1 + 1\nreturn 1 + 1\n", n/2) // defined again
		return b.String()
	}
	return "return 1 + 1\n"
}

func (c *large) Check(r *pbt.Rec) error {
	if c.F < 0 || c.F > 6 || c.N < 3 || c.N > maxLarge {
		return pbt.ErrInvalid
	}
	src := c.src()
	r.NonTrivial()
	tree, err := ref.Parse(src)
	if err != nil {
		pbt.HarnessFailure(fmt.Sprintf("form %d of size %d: %v", c.F, c.N, err))
	}
	m, merr := ref.Load(tree, 3*maxLarge)
	if merr == ref.ErrTooLong || m != nil && (m.ZeroShift || m.BareMissing) {
		pbt.HarnessFailure(fmt.Sprintf("form %d of size %d is outside the domain", c.F, c.N))
	}
	what := fmt.Sprintf("script of form %d and size %d (%d bytes, %.60q...)", c.F, c.N, len(src), src)
	return pbt.Catch(func() error {
		l, err := acc.LoadString(src)
		if merr != nil {
			r.Class("rejected")
			if err == nil {
				return fmt.Errorf("%s must be rejected (%v) but loads to %d elements", what, merr, len(l.Chain))
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("%s: %.300s", what, err.Error())
		}
		r.Class("loads")
		if len(l.Chain) != len(m.Chain) || len(l.Program) != len(m.Ops) {
			return fmt.Errorf("%s loads to %d elements and %d operations, it denotes %d and %d", what, len(l.Chain), len(l.Program), len(m.Chain), len(m.Ops))
		}
		for i, x := range m.Chain {
			if l.Chain[i].Cmp(x) != 0 {
				return fmt.Errorf("%s: element %d is wrong (%d bits, want %d)", what, i, l.Chain[i].BitLen(), x.BitLen())
			}
		}
		for i, o := range m.Ops {
			if g := l.Program[i]; !(g.I == o.I && g.J == o.J || g.I == o.J && g.J == o.I) {
				return fmt.Errorf("%s: operation %d is %v, want %v", what, i+1, g, o)
			}
		}
		return nil
	})
}

func main() {
	short := []string{"a", "b", "=", "1", "2", "*", "+", "<<", "[", "]", "(", ")", "\n", " ", "3", "return", "dbl", "add", "shl", "0x1f", "07", "0"}
	tiny := []string{"a", "=", "1", "2*", "+", "<<3", "[1]", "(", ")", "\n", "dbl", "return "}
	seqs := func(e *pbt.Enum, toks []string, n int, prefix string) bool {
		var rec func(s string, k int) bool
		rec = func(s string, k int) bool {
			if k == min(2, n) && !e.Mine() {
				return true
			}
			if k == n {
				return e.Do(mk(prefix+s, ""))
			}
			for _, t := range toks {
				if !rec(s+t, k+1) {
					return false
				}
			}
			return true
		}
		return rec("", 0)
	}
	pbt.Main(&pbt.Spec{
		ID:   "C03",
		Rule: "A case is a source text; it is non-trivial when it is in the grammar and either loads to a chain of at least 2 operations or must be rejected by the semantics (undefined or redefined name, element not computed yet). Oracle: hand-written recogniser and tree builder for the published PEG, own evaluation in statement order and left to right; trees, chains and operations are compared, and acceptance must agree both ways.",
		Assumptions: []string{
			"A statement that merely names an element that does not exist, without operating on it, may load or be rejected; so may a shift by zero.",
			"Scripts that need more than 3000 operations are only parsed, not loaded.",
		},
		Kinds: map[string]func() pbt.Case{"large": func() pbt.Case { return &large{} }, "text": func() pbt.Case { return &text{} }},
		Sections: []pbt.Section{
			{Name: "token-sequences", Enum: func(e *pbt.Enum) {
				for n := 0; n <= pbt.Pick(e.Tier, 3, 4); n++ {
					if !seqs(e, short, n, "") || !seqs(e, short, n, "a = 1 + 1\nb = a << 2\nreturn ") || !seqs(e, short, n, "a = 1 + 1\n") {
						return
					}
				}
				for n := 4; n <= pbt.Pick(e.Tier, 4, 5); n++ {
					if !seqs(e, tiny, n, "") || !seqs(e, tiny, n, "a = 2*1\n") {
						return
					}
				}
			}},
			{Name: "ladder", Enum: ladder},
			{Name: "long-texts", Enum: longTexts},
			{Name: "large", Shards: 6, CaseCPU: 600, Enum: func(e *pbt.Enum) {
				for _, n := range []int{3, 4095, 4096, 4097, 8192, 16384, 32768, 65535, 65536, 65537, 70000} {
					for f := 0; f <= 6; f++ {
						if f >= 5 && n > pbt.Pick(e.Tier, 4097, 16384) { // the parser's table of 20000 statements takes gigabytes
							continue
						}
						if f <= 1 && n > 16384 && n != 65537 && e.Tier == pbt.Quick {
							continue
						}
						if f <= 4 && f >= 2 && n > 16384 && n != 65535+f-2 && e.Tier == pbt.Quick {
							continue
						}
						if e.Mine() && !e.Do(&large{f, n}) {
							return
						}
					}
				}
			}},
			{Name: "legal-scripts", Fuzz: 90, N: 16000, Gen: func(t *rapid.T) pbt.Case {
				return mk(gens.Render(t, gens.Script(t, scriptOpts(t, 0)), false), "legal")
			}},
			{Name: "illegal-scripts", N: 16000, Gen: func(t *rapid.T) pbt.Case {
				return mk(gens.Render(t, gens.Script(t, scriptOpts(t, gens.Pick(t, "illegal", 8, 30, 80))), true), "illegal")
			}},
			{Name: "mutated-scripts", Fuzz: 90, N: 20000, Gen: func(t *rapid.T) pbt.Case {
				return mk(gens.Mutate(t, gens.Render(t, gens.Script(t, scriptOpts(t, 4)), true)), "mutated")
			}},
			{Name: "token-soup", Fuzz: 90, N: 8000, Gen: func(t *rapid.T) pbt.Case {
				return mk(gens.TokenSoup(t, 14), "soup")
			}},
			{Name: "bytes", Fuzz: 90, N: 2000, Seconds: 20, Gen: func(t *rapid.T) pbt.Case {
				if rapid.Bool().Draw(t, "utf8") {
					return mk(rapid.String().Draw(t, "s"), "string")
				}
				return mk(string(rapid.SliceOf(rapid.Byte()).Draw(t, "b")), "bytes")
			}},
			{Name: "eval-command", N: 800, Seconds: 20, Gen: func(t *rapid.T) pbt.Case {
				illegal := gens.Pick(t, "illegal", 0, 0, 40)
				s := gens.Render(t, gens.Script(t, scriptOpts(t, illegal)), illegal > 0)
				if illegal > 0 && rapid.Bool().Draw(t, "mutate") {
					s = gens.Mutate(t, s)
				}
				c := mk(s, "command")
				c.CLI, c.Files = true, true
				return c
			}},
		},
	})
}
