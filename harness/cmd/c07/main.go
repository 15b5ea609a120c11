// C07: printing any syntax tree and parsing it back is the identity.
package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/mmcloughlin/addchain/acc/ast"
	"github.com/mmcloughlin/addchain/acc/parse"
	"github.com/mmcloughlin/addchain/acc/printer"
	"pgregory.net/rapid"

	"github.com/mmcloughlin/addchain/verif/conv"
	"github.com/mmcloughlin/addchain/verif/gens"
	"github.com/mmcloughlin/addchain/verif/pbt"
	"github.com/mmcloughlin/addchain/verif/ref"
)

// tree is a syntax tree: named statements and a final unnamed one.
type tree struct {
	S    ref.Script `json:"script"`
	Note string     `json:"note,omitempty"`
}

// dblname: an identifier that the grammar's "dbl" operator swallows, as a term of an
// addition or as a whole statement (finding dbl-identifier, a flaw of the grammar).
func dblname(n string) bool {
	if !strings.HasPrefix(n, "dbl") || len(n) == 3 {
		return false
	}
	c := n[3]
	return c == '1' || c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

// swallowed reports whether such an identifier occurs in a term position.
func swallowed(e *ref.Expr, term bool) bool {
	switch e.K {
	case "i":
		return term && dblname(e.Name)
	case "+":
		return swallowed(e.X, true) || swallowed(e.Y, true)
	case "d", "s":
		return swallowed(e.X, false)
	}
	return false
}

func (c *tree) Check(r *pbt.Rec) error {
	depth, nodes := 0, 0
	bad := false
	for i, st := range c.S {
		if (st.Name == "") != (i == len(c.S)-1) || st.Name != "" && !ref.Legal(st.Name) || !legal(st.Expr) {
			return pbt.ErrInvalid
		}
		depth = max(depth, st.Expr.Depth())
		nodes += st.Expr.Nodes()
		bad = bad || swallowed(st.Expr, true)
	}
	if len(c.S) == 0 {
		return pbt.ErrInvalid
	}
	r.Class("depth=%d", depth)
	if depth >= 3 {
		r.NonTrivial()
	}
	if c.Note != "" {
		r.Class("source:%s", c.Note)
	}
	err := pbt.Catch(func() error { return roundtrip(conv.ToAST(c.S)) })
	if err != nil && bad {
		// Excused only when the same tree with the offending names replaced is fine.
		d := &tree{}
		for _, st := range c.S {
			d.S = append(d.S, ref.Stmt{Name: st.Name, Expr: replaced(st.Expr, true)})
		}
		if e := pbt.Catch(func() error { return roundtrip(conv.ToAST(d.S)) }); e != nil {
			return e
		}
		r.Class("dbl-identifier")
		return r.Known("dbl-identifier", err.Error())
	}
	return err
}

// replaced renames the offending occurrences, and only those.
func replaced(e *ref.Expr, term bool) *ref.Expr {
	if e == nil {
		return nil
	}
	f := *e
	switch e.K {
	case "i":
		if term && dblname(e.Name) {
			f.Name = "q" + e.Name
		}
	case "+":
		f.X, f.Y = replaced(e.X, true), replaced(e.Y, true)
	default:
		f.X = replaced(e.X, false)
	}
	return &f
}

func legal(e *ref.Expr) bool {
	if e == nil {
		return false
	}
	switch e.K {
	case "o":
		return true
	case "i":
		return ref.Legal(e.Name)
	case "+":
		return legal(e.X) && legal(e.Y)
	case "d", "s":
		return legal(e.X)
	}
	return false
}

// roundtrip prints a tree, parses the text and compares.
func roundtrip(t *ast.Chain) error {
	want, err := conv.FromAST(t)
	if err != nil {
		return err
	}
	text, err := printer.String(t)
	if err != nil {
		return fmt.Errorf("printing fails: %v\n%v", err, want)
	}
	u, err := parse.String(text)
	if err != nil {
		return fmt.Errorf("printed text does not parse: %v\n%s\n%v", err, text, want)
	}
	got, err := conv.FromAST(u)
	if err != nil {
		return err
	}
	if got.String() != want.String() || !reflect.DeepEqual(t, u) {
		return fmt.Errorf("printed text\n%sparses to\n%sprinted from\n%s", text, got, want)
	}
	again, err := printer.String(u)
	if err != nil {
		return fmt.Errorf("printing fails: %v", err)
	}
	if again != text {
		return fmt.Errorf("formatting is not idempotent:\n%s\n%s", text, again)
	}
	b, err := printer.Bytes(t)
	if err != nil || string(b) != text {
		return fmt.Errorf("Bytes differs from String: %q, %q, %v", b, text, err)
	}
	// The text belongs to the caller.
	if smallText == "" {
		if smallText, err = printer.String(small); err != nil {
			return fmt.Errorf("printing a small tree fails: %v", err)
		}
	}
	other, err := printer.Bytes(small)
	if err != nil || string(other) != smallText {
		return fmt.Errorf("printing of a small tree gives %q, %v after that of\n%s", other, err, text)
	}
	if string(b) != text {
		return fmt.Errorf("printing another tree changed the text of an earlier one from\n%s to\n%s", text, b)
	}
	for i := range b {
		b[i] = '#'
	}
	if b, err := printer.Bytes(t); err != nil || string(b) != text || string(other) != smallText {
		return fmt.Errorf("after its text was overwritten, a tree prints as\n%s, not\n%s (%v)", b, text, err)
	}
	return nil
}

// small is a tree printed between others.
var (
	small     = &ast.Chain{Statements: []ast.Statement{{Name: "s", Expr: ast.Double{X: ast.Operand(0)}}, {Expr: ast.Add{X: ast.Identifier("s"), Y: ast.Operand(0)}}}}
	smallText string
)

func (c *tree) Shrinks() []pbt.Case {
	var out []pbt.Case
	for i := range c.S {
		if i < len(c.S)-1 {
			d := &tree{}
			d.S = append(append(d.S, c.S[:i]...), c.S[i+1:]...)
			out = append(out, d)
		}
		for _, e := range smaller(c.S[i].Expr) {
			d := &tree{S: append(ref.Script{}, c.S...)}
			d.S[i].Expr = e
			out = append(out, d)
		}
	}
	return out
}

func smaller(e *ref.Expr) []*ref.Expr {
	var out []*ref.Expr
	if e.X == nil {
		if !(e.K == "i" && e.Name == "a") && !(e.K == "o" && e.Idx == 0) {
			out = append(out, ref.Opd(0))
		}
		return out
	}
	out = append(out, e.X)
	if e.Y != nil {
		out = append(out, e.Y)
		for _, y := range smaller(e.Y) {
			out = append(out, ref.Add(e.X, y))
		}
	}
	for _, x := range smaller(e.X) {
		f := *e
		f.X = x
		out = append(out, &f)
	}
	return out
}

// text is a source text that may parse.
type text struct {
	Src  []byte `json:"src_base64"`
	Show string `json:"show"`
	CLI  bool   `json:"cli,omitempty"`
}

func (c *text) Check(r *pbt.Rec) error {
	if len(c.Src) > 1<<16 {
		return pbt.ErrInvalid
	}
	src := string(c.Src)
	return pbt.Catch(func() error {
		t, err := parse.String(src)
		if err != nil {
			r.Class("does not parse")
			return nil
		}
		r.Class("parses")
		if err := roundtrip(t); err != nil {
			return fmt.Errorf("%q: %v", src, err)
		}
		s, err := conv.FromAST(t)
		if err != nil {
			return err
		}
		depth := 0
		for _, st := range s {
			depth = max(depth, st.Expr.Depth())
		}
		if depth >= 3 {
			r.NonTrivial()
		}
		if c.CLI {
			return command(src, t, s)
		}
		return nil
	})
}

// command runs `addchain fmt`, on standard input and on a file.
func command(src string, t *ast.Chain, s ref.Script) error {
	bin := os.Getenv("VERIF_ADDCHAIN")
	if bin == "" {
		return pbt.ErrInvalid
	}
	dir, err := os.MkdirTemp("", "verif-c07-")
	if err != nil {
		return nil
	}
	defer os.RemoveAll(dir)
	name := filepath.Join(dir, "in.acc")
	if err := os.WriteFile(name, []byte(src), 0o644); err != nil {
		return nil
	}
	first := ""
	for _, args := range [][]string{{"fmt"}, {"fmt", name}} {
		cmd := exec.Command(bin, args...)
		if len(args) == 1 {
			cmd.Stdin = strings.NewReader(src)
		}
		var stderr strings.Builder
		cmd.Stderr = &stderr
		out, err := cmd.Output()
		if err != nil {
			return fmt.Errorf("fmt of %q: %v\n%s", src, err, stderr.String())
		}
		u, err := parse.String(string(out))
		if err != nil {
			return fmt.Errorf("fmt of %q prints text that does not parse: %v\n%s", src, err, out)
		}
		if !reflect.DeepEqual(t, u) {
			got, _ := conv.FromAST(u)
			return fmt.Errorf("fmt of %q prints\n%swith tree\n%swant\n%s", src, out, got, s)
		}
		first = string(out)
	}
	// Idempotence of the command.
	cmd := exec.Command(bin, "fmt")
	cmd.Stdin = strings.NewReader(first)
	out, err := cmd.Output()
	if err != nil || string(out) != first {
		return fmt.Errorf("fmt of its own output %q: %q, %v", first, out, err)
	}
	return nil
}

func (c *text) Shrinks() []pbt.Case {
	var out []pbt.Case
	for _, s := range gens.ShrinkText(string(c.Src)) {
		out = append(out, mk(s, c.CLI))
	}
	return out
}

func mk(src string, cli bool) *text {
	return &text{Src: []byte(src), Show: fmt.Sprintf("%q", src), CLI: cli}
}

// enumTrees lists all trees with exactly n nodes.
func enumTrees(n int, leaves []*ref.Expr, shifts []uint64, f func(*ref.Expr) bool) bool {
	if n == 1 {
		for _, l := range leaves {
			if !f(l) {
				return false
			}
		}
		return true
	}
	ok := enumTrees(n-1, leaves, shifts, func(x *ref.Expr) bool {
		if !f(ref.Dbl(x)) {
			return false
		}
		for _, s := range shifts {
			if !f(ref.Shl(x, s)) {
				return false
			}
		}
		return true
	})
	for k := 1; ok && k <= n-2; k++ {
		ok = enumTrees(k, leaves, shifts, func(x *ref.Expr) bool {
			return enumTrees(n-1-k, leaves, shifts, func(y *ref.Expr) bool { return f(ref.Add(x, y)) })
		})
	}
	return ok
}

var lookalikes = []string{"a", "x", "_", "dbl", "dbl0", "dbl2", "dbl22", "add", "addx", "add1", "shl", "shl1", "return", "returna", "return1", "_1", "e", "A9", "x_y", "return_", "Dbl", "adda", "shlx", "D"}

func treeScript(t *rapid.T, names []string) ref.Script {
	leaf := func() *ref.Expr {
		switch gens.Uni(t, "leafkind", 0, 3) {
		case 0:
			return ref.Opd(0)
		case 1:
			if gens.Uni(t, "bigi", 0, 15) == 0 {
				return ref.Opd(gens.Pick(t, "idx", uint64(10), 1<<31, 1<<32, 1<<63-1, 1<<63, ^uint64(0)))
			}
			return ref.Opd(uint64(gens.Int(t, "idx", 0, 12)))
		}
		return ref.Id(gens.Pick(t, "id", names...))
	}
	var s ref.Script
	for i, k := 0, gens.Int(t, "stmts", 0, 4); i < k; i++ {
		s = append(s, ref.Stmt{Name: gens.Pick(t, "name", names...), Expr: gens.Tree(t, gens.Int(t, "depth", 0, 4), leaf)})
	}
	return append(s, ref.Stmt{Expr: gens.Tree(t, gens.Pick(t, "depth", 2, 3, 5, 8), leaf)})
}

// wide scripts: long sums, towers, many statements, long names, big numbers, so that
// nothing depends on sizes.
func wide(e *pbt.Enum) {
	do := func(note string, s ref.Script) bool {
		return !e.Mine() || e.Do(&tree{S: s, Note: note})
	}
	leaf := func(i int) *ref.Expr {
		switch i % 4 {
		case 0:
			return ref.Opd(uint64(i))
		case 1:
			return ref.Id(fmt.Sprintf("a%d", i))
		case 2:
			return ref.Shl(ref.Id("b"), uint64(i))
		}
		return ref.Dbl(ref.Opd(0))
	}
	sum := func(n int) *ref.Expr {
		x := leaf(0)
		for i := 1; i < n; i++ {
			x = ref.Add(x, leaf(i))
		}
		return x
	}
	for n := 2; n <= pbt.Pick(e.Tier, 140, 600); n++ {
		// A long sum, named and returned, with a sum on the right every now and then.
		x := leaf(0)
		for i := 1; i < n; i++ {
			y := leaf(i)
			if i%7 == n%7 {
				y = ref.Add(y, leaf(i+1))
			}
			x = ref.Add(x, y)
		}
		if !do("sum", ref.Script{{Name: "q", Expr: sum(n)}, {Expr: sum(n + 1)}}) || !do("sum of sums", ref.Script{{Name: "q", Expr: x}, {Expr: ref.Shl(x, 2)}}) {
			return
		}
		// Many statements, with names of all widths.
		var s ref.Script
		for i := 0; i < n; i++ {
			s = append(s, ref.Stmt{Name: strings.Repeat("n", i*i%23+1) + fmt.Sprint(i), Expr: sum(i%3 + 1)})
		}
		if !do("statements", append(s, ref.Stmt{Expr: ref.Opd(uint64(n))})) {
			return
		}
		// One name, one number and one index that grow.
		name := strings.Repeat("x", n)
		if !do("name", ref.Script{{Name: name, Expr: ref.Dbl(ref.Opd(0))}, {Name: "y", Expr: ref.Id(name)}, {Expr: ref.Add(ref.Id(name), ref.Id("y"))}}) {
			return
		}
		if !do("number", ref.Script{{Name: "y", Expr: ref.Shl(ref.Opd(uint64(n)), uint64(n))}, {Expr: ref.Shl(ref.Id("y"), 1<<uint(n%64))}}) {
			return
		}
	}
	// Towers of one-operand nodes (parenthesised at every level) and right combs.
	for n := 1; n <= pbt.Pick(e.Tier, 140, 600); n++ {
		x, y, z := ref.Id("a"), ref.Opd(0), ref.Opd(3)
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				x = ref.Dbl(x)
			} else {
				x = ref.Shl(x, uint64(i))
			}
			y, z = ref.Shl(y, 1), ref.Add(ref.Opd(0), z)
		}
		for _, v := range []*ref.Expr{x, y, z} {
			if !do("tower", ref.Script{{Name: "t", Expr: v}, {Expr: v}}) {
				return
			}
		}
	}
}

// long is a tree of regular shape with one size up to 2^16 and beyond: terms, statements,
// nesting, letters of a name.
type long struct {
	F string `json:"f"`
	N int    `json:"n"`
}

// longMax bounds sizes by what the parser can take: it recurses for every parenthesis
// (some 20 kB of stack each) and keeps a table of everything it tried.
var longMax = map[string][2]int{"sum": {10000, 70000}, "right": {4097, 16384}, "tower": {4097, 16384}, "statements": {4097, 16384}, "name": {70000, 70000}, "number": {70000, 70000}}

func (c *long) script() ref.Script {
	term := func(i int) *ref.Expr {
		switch i % 5 {
		case 0:
			return ref.Opd(uint64(i))
		case 1:
			return ref.Shl(ref.Id("b"), uint64(i))
		case 2:
			return ref.Dbl(ref.Id("a"))
		}
		return ref.Id("a")
	}
	var s ref.Script
	x := term(0)
	switch c.F {
	case "sum":
		for i := 1; i < c.N; i++ {
			x = ref.Add(x, term(i))
		}
	case "right":
		for i := 1; i < c.N; i++ {
			x = ref.Add(term(i), x)
		}
	case "tower":
		for i := 1; i < c.N; i++ {
			if i%3 == 0 {
				x = ref.Dbl(x)
			} else {
				x = ref.Shl(x, uint64(i))
			}
		}
	case "statements":
		for i := 1; i < c.N; i++ {
			s = append(s, ref.Stmt{Name: fmt.Sprintf("n%d", i), Expr: ref.Add(term(i), ref.Shl(term(i+1), 3))})
		}
	case "name":
		n := strings.Repeat("n", c.N)
		s = append(s, ref.Stmt{Name: n, Expr: ref.Dbl(ref.Opd(0))}, ref.Stmt{Name: "m", Expr: ref.Add(ref.Id(n), ref.Id(n))})
		x = ref.Shl(ref.Id(n), 1)
	case "number":
		x = ref.Add(ref.Shl(ref.Opd(uint64(c.N)), uint64(c.N)), ref.Opd(uint64(c.N)+1<<32))
	}
	return append(s, ref.Stmt{Expr: x})
}

func (c *long) Check(r *pbt.Rec) error {
	if c.N < 2 || c.N > 1<<18 {
		return pbt.ErrInvalid
	}
	r.NonTrivial()
	s := c.script()
	t := conv.ToAST(s)
	short := func(s string) string {
		if len(s) > 300 {
			s = s[:150] + "..." + s[len(s)-150:]
		}
		return s
	}
	return pbt.Catch(func() error {
		text, err := printer.String(t)
		if err != nil {
			return fmt.Errorf("printing fails: %s", short(err.Error()))
		}
		for _, how := range []string{"string", "reader"} {
			var u *ast.Chain
			if how == "string" {
				u, err = parse.String(text)
			} else {
				u, err = parse.Reader("long", strings.NewReader(text))
			}
			if err != nil {
				return fmt.Errorf("%d characters of print do not parse (%s): %s\n%q", len(text), how, short(err.Error()), short(text))
			}
			if !reflect.DeepEqual(t, u) {
				return fmt.Errorf("%d characters of print parse (%s) to a different tree\n%q", len(text), how, short(text))
			}
			again, err := printer.String(u)
			if err != nil || again != text {
				return fmt.Errorf("formatting %d characters is not idempotent: %v", len(text), err)
			}
		}
		return nil
	})
}

func (c *long) Shrinks() []pbt.Case {
	return []pbt.Case{&long{c.F, c.N / 2}, &long{c.F, c.N - c.N/8}, &long{c.F, c.N - 1}}
}

func main() {
	opts := func(t *rapid.T) gens.ScriptOpts {
		return gens.ScriptOpts{
			MaxStmts: gens.Pick(t, "maxstmts", 2, 4, 8), MaxDepth: gens.Pick(t, "maxdepth", 1, 2, 4, 7),
			MaxShift: gens.Pick(t, "maxshift", 2, 5, 40), MaxOps: 400, Illegal: gens.Pick(t, "illegal", 0, 20),
			Index: gens.Pick(t, "index", 30, 100, 255), Dangling: true, Names: gens.Uni(t, "names", 0, 2),
		}
	}
	pbt.Main(&pbt.Spec{
		ID:          "C07",
		Rule:        "A case is a syntax tree or a source text; it is non-trivial when it has an expression at least 3 levels deep (and, for a text, parses). Oracle: structural equality of the tree with the one parsed from its print, and a byte-identical second print (which implies the same chain in the same order); the fmt command likewise.",
		Assumptions: []string{"Nesting is bounded (16384 levels): the generated parser recurses for every parenthesis, and Go ends a program whose stack exceeds 1 GB.", "Statement lists have distinct roles as in the grammar: all statements named but the last."},
		Kinds: map[string]func() pbt.Case{
			"long": func() pbt.Case { return &long{} },
			"tree": func() pbt.Case { return &tree{} },
			"text": func() pbt.Case { return &text{} },
		},
		Sections: []pbt.Section{
			{Name: "all-trees", Enum: func(e *pbt.Enum) {
				one := func(x *ref.Expr) bool {
					if !e.Mine() {
						return true
					}
					return e.Do(&tree{S: ref.Script{{Expr: x}}})
				}
				full := []*ref.Expr{ref.Opd(0), ref.Opd(2), ref.Id("a"), ref.Id("dbl"), ref.Id("return")}
				for n := 1; n <= pbt.Pick(e.Tier, 5, 6); n++ {
					if !enumTrees(n, full, []uint64{0, 1, 13}, one) {
						return
					}
				}
				for n := 6; n <= pbt.Pick(e.Tier, 8, 11); n++ {
					if !enumTrees(n, []*ref.Expr{ref.Id("a")}, []uint64{2}, one) {
						return
					}
				}
			}},
			{Name: "dbl-identifiers", Enum: func(e *pbt.Enum) {
				for n := 1; n <= 3; n++ {
					enumTrees(n, []*ref.Expr{ref.Id("dblx"), ref.Id("dbl1"), ref.Id("dbl_"), ref.Opd(0)}, []uint64{3}, func(x *ref.Expr) bool {
						if !e.Mine() {
							return true
						}
						return e.Do(&tree{S: ref.Script{{Expr: x}}}) && e.Do(&tree{S: ref.Script{{Name: "dblx", Expr: x}, {Expr: ref.Dbl(ref.Id("dblx"))}}})
					})
				}
			}},
			{Name: "wide", Enum: wide},
			{Name: "long", CaseCPU: 600, Enum: func(e *pbt.Enum) {
				for _, n := range []int{255, 256, 257, 1000, 4095, 4096, 4097, 8192, 10000, 16384, 32768, 65536, 70000} {
					for _, f := range []string{"sum", "right", "tower", "statements", "name", "number"} {
						if n > pbt.Pick(e.Tier, longMax[f][0], longMax[f][1]) && !(f == "sum" && n == 70000) {
							continue
						}
						if e.Mine() && !e.Do(&long{f, n}) {
							return
						}
					}
				}
			}},
			{Name: "random-trees", Fuzz: 90, N: 16000, Gen: func(t *rapid.T) pbt.Case {
				return &tree{S: treeScript(t, lookalikes), Note: "random"}
			}},
			{Name: "texts", Fuzz: 90, N: 16000, Gen: func(t *rapid.T) pbt.Case {
				s := gens.Render(t, gens.Script(t, opts(t)), true)
				if gens.Uni(t, "mutate", 0, 2) == 0 {
					s = gens.Mutate(t, s)
				}
				return mk(s, false)
			}},
			{Name: "tree-texts", N: 8000, Gen: func(t *rapid.T) pbt.Case {
				return mk(gens.Render(t, treeScript(t, lookalikes), rapid.Bool().Draw(t, "wild")), false)
			}},
			{Name: "fmt-command", N: 240, Seconds: 20, Gen: func(t *rapid.T) pbt.Case {
				return mk(gens.Render(t, treeScript(t, lookalikes), false), true)
			}},
		},
	})
}
