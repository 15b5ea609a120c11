// C15: every input ends in a result or a diagnostic, never a crash or a hang.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"os"
	"path/filepath"
	"slices"
	"strconv"
	"strings"
	"syscall"

	"github.com/mmcloughlin/addchain/acc"
	"github.com/mmcloughlin/addchain/acc/ast"
	"github.com/mmcloughlin/addchain/acc/eval"
	"github.com/mmcloughlin/addchain/acc/ir"
	"github.com/mmcloughlin/addchain/acc/parse"
	"github.com/mmcloughlin/addchain/acc/pass"
	"github.com/mmcloughlin/addchain/acc/printer"
	"github.com/mmcloughlin/addchain/internal/bigint"
	"github.com/mmcloughlin/addchain/internal/calc"
	"github.com/mmcloughlin/addchain/internal/gen"
	"pgregory.net/rapid"

	"github.com/mmcloughlin/addchain/verif/cli"
	"github.com/mmcloughlin/addchain/verif/gens"
	"github.com/mmcloughlin/addchain/verif/pbt"
	"github.com/mmcloughlin/addchain/verif/ref"
)

const (
	maxText  = 1 << 14 // bytes of a script
	maxShift = 4096    // doublings by all shifts of a script
	maxBits  = 30000   // of a value of an expression
)

// shifts adds up the shift amounts of a tree.
func shifts(c *ast.Chain) uint64 {
	total := uint64(0)
	var walk func(e ast.Expr)
	add := func(s uint64) {
		if total += s; s > maxShift || total > maxShift {
			total = maxShift + 1
		}
	}
	walk = func(e ast.Expr) {
		switch e := e.(type) {
		case ast.Add:
			walk(e.X)
			walk(e.Y)
		case ast.Double:
			walk(e.X)
		case ast.Shift:
			walk(e.X)
			add(uint64(e.S))
		}
	}
	for _, s := range c.Statements {
		walk(s.Expr)
	}
	return total
}

// bounded reports whether the shift amounts of a script are within the bound, and
// whether it parses.
func bounded(s string) (bound, parses bool) {
	c, err := parse.String(s)
	if err != nil || c == nil {
		return true, false
	}
	return shifts(c) <= maxShift, true
}

// text is given to every library entry point that takes a string.
type text struct {
	S    gens.Bytes `json:"s"`
	Note string     `json:"note,omitempty"`
}

var allocators = []pass.Allocator{
	{Input: "x", Output: "z", Format: "t%d"},
	{Input: "in", Output: "out", Format: "%s"},
	{},
}

func (c *text) Check(r *pbt.Rec) error {
	if len(c.S) > maxText {
		return pbt.ErrInvalid
	}
	s := string(c.S)
	if c.Note != "" {
		r.Class("source:%s", c.Note)
	}
	if len(s) >= 3 {
		r.NonTrivial()
	}
	stage := ""
	err := pbt.Catch(func() error { return entryPoints(r, s, &stage) })
	if err != nil {
		return fmt.Errorf("%s of %q: %v", stage, cli.Tail(s, 400), err)
	}
	return nil
}

func entryPoints(r *pbt.Rec, s string, stage *string) error {
	// Expressions.
	if !ref.TooBigToTry(s, maxBits) {
		*stage = "calc.Eval"
		x, err := calc.Eval(s)
		if err == nil && x == nil {
			return errors.New("neither value nor error")
		}
		if err == nil {
			r.Class("expression")
		}
	}
	*stage = "bigint.Hex"
	if x, ok := bigint.Hex(s); ok && x == nil {
		return errors.New("neither value nor error")
	}
	*stage = "bigint.Binary"
	if x, ok := bigint.Binary(s); ok && x == nil {
		return errors.New("neither value nor error")
	}

	// Scripts.
	*stage = "parse.Reader"
	if _, err := parse.Reader("<file %s%d>", strings.NewReader(s)); err != nil && err.Error() == "" {
		return errors.New("empty error message")
	}
	*stage = "parse.String"
	tree, err := parse.String(s)
	if err != nil {
		r.Class("not a script")
		*stage = "acc.LoadString"
		if _, err := acc.LoadString(s); err == nil {
			return errors.New("loads but does not parse")
		}
		return nil
	}
	if tree == nil {
		return errors.New("neither value nor error")
	}
	*stage = "printer.String"
	if _, err := printer.String(tree); err != nil {
		return err
	}
	if err := printer.Fprint(failing{}, tree); err == nil {
		return errors.New("no error from a failing writer")
	}
	*stage = "ast.Fprint"
	if err := ast.Fprint(io.Discard, tree); err != nil {
		return err
	}
	if err := ast.Fprint(failing{}, tree); err == nil {
		return errors.New("no error from a failing writer")
	}
	*stage = "acc.Translate"
	p, err := acc.Translate(tree)
	if err != nil {
		r.Class("not translated")
		return nil
	}
	if p == nil {
		return errors.New("neither value nor error")
	}
	_ = p.String()
	if len(p.Instructions) > 0 {
		_ = p.Output().String()
	}
	if shifts(tree) > maxShift {
		r.Class("shift amounts beyond the bound")
		return nil
	}
	fresh := func() *ir.Program {
		q, err := acc.Translate(tree)
		if err != nil {
			panic(fmt.Sprint("second translation fails: ", err))
		}
		return q
	}
	// Every pass on its own, on a program that no other pass has seen.
	for _, f := range []struct {
		name string
		pass pass.Interface
	}{
		{"pass.CanonicalizeOperands", pass.Func(pass.CanonicalizeOperands)},
		{"pass.Indexes", pass.Func(pass.Indexes)},
		{"pass.ReadCounts", pass.Func(pass.ReadCounts)},
		{"pass.CheckDanglingInputs", pass.Func(pass.CheckDanglingInputs)},
		{"pass.Validate", pass.Validate},
		{"pass.Compile", pass.Func(pass.Compile)},
		{"pass.Eval", pass.Func(pass.Eval)},
		{"pass.ClearNames", pass.Func(pass.ClearNames)},
		{"pass.NameByteValues", pass.NameByteValues},
		{"pass.NameXRuns", pass.NameXRuns},
		{"pass.Allocator", allocators[0]},
		{"pass.Allocator, formats", allocators[1]},
		{"pass.Allocator, empty", allocators[2]},
	} {
		*stage = f.name
		q := fresh()
		if err := f.pass.Execute(q); err != nil {
			continue
		}
		*stage = f.name + " and acc.Build"
		if b, err := acc.Build(q); err == nil {
			if _, err := printer.String(b); err != nil {
				return err
			}
		}
	}
	*stage = "acc.LoadString"
	l, err := acc.LoadString(s)
	if err != nil {
		r.Class("not evaluated")
	} else {
		r.Class("evaluated")
		*stage = "acc.String of the loaded program"
		if _, err := acc.String(l); err != nil {
			r.Class("not built")
		}
		*stage = "acc.Decompile"
		d, err := acc.Decompile(l.Program)
		if err == nil {
			*stage = "acc.String of the decompiled program"
			_, _ = acc.String(d)
		}
	}
	*stage = "gen.PrepareData"
	data, err := gen.PrepareData(gen.Config{Allocator: allocators[len(s)%2]}, tree)
	if err != nil {
		r.Class("not generated")
		return nil
	}
	r.Class("generated")
	for _, name := range gen.BuiltinTemplateNames() {
		*stage = "gen.Generate " + name
		tmpl, err := gen.BuiltinTemplate(name)
		if err != nil {
			return err
		}
		if err := gen.Generate(io.Discard, tmpl, data); err != nil {
			return err
		}
	}
	*stage = "eval.Interpreter"
	i := eval.NewInterpreter()
	_ = i.Execute(data.Program.Clone())
	i = eval.NewInterpreter()
	i.Store(allocators[len(s)%2].Input, big.NewInt(1))
	_ = i.Execute(data.Program)
	return nil
}

// failing writer.
type failing struct{}

func (failing) Write([]byte) (int, error) { return 0, errors.New("no space") }

func (c *text) Shrinks() []pbt.Case {
	var out []pbt.Case
	for _, s := range gens.ShrinkText(string(c.S)) {
		out = append(out, &text{S: gens.Bytes(s)})
	}
	if len(c.S) < 60 {
		for i := range c.S {
			for _, b := range "1a " {
				if c.S[i] > byte(b) {
					out = append(out, &text{S: c.S[:i] + gens.Bytes(b) + c.S[i+1:]})
				}
			}
		}
	}
	return out
}

// tmpl is a template text applied to the data of a script.
type tmpl struct {
	T gens.Bytes `json:"t"`
	S string     `json:"s"`
}

func (c *tmpl) Check(r *pbt.Rec) error {
	if len(c.T) > 2000 || len(c.S) > 2000 || strings.Count(string(c.T), "range") > 3 {
		return pbt.ErrInvalid
	}
	if ok, _ := bounded(c.S); !ok {
		return pbt.ErrInvalid
	}
	err := pbt.Catch(func() error {
		tree, err := parse.String(c.S)
		if err != nil {
			return nil
		}
		data, err := gen.PrepareData(gen.Config{Allocator: allocators[0]}, tree)
		if err != nil {
			return nil
		}
		var buf bytes.Buffer
		if err := gen.Generate(&buf, string(c.T), data); err != nil {
			r.Class("error")
		} else {
			r.Class("output")
		}
		r.NonTrivial()
		return nil
	})
	if err != nil {
		return fmt.Errorf("template %q on %q: %v", c.T, c.S, err)
	}
	return nil
}

func (c *tmpl) Shrinks() []pbt.Case {
	var out []pbt.Case
	for _, s := range gens.ShrinkText(string(c.T)) {
		out = append(out, &tmpl{gens.Bytes(s), c.S})
	}
	return out
}

// command is a run of the tool. In Args, @script is a file with the script, @tmpl
// one with the template, @dir a directory, @missing no file and @out a writable path.
type command struct {
	Args   []gens.Bytes `json:"args"`
	Script gens.Bytes   `json:"script,omitempty"`
	Stdin  bool         `json:"stdin,omitempty"` // the script is also the standard input
	Tmpl   string       `json:"tmpl,omitempty"`
	Closed bool         `json:"closed,omitempty"` // no standard input
	// Expect is "ok", "silent" (ok, possibly without output), "fail" or "": the
	// status if the library decides the outcome.
	Expect string `json:"expect,omitempty"`
	Note   string `json:"note,omitempty"`
	Mem    int    `json:"mem,omitempty"` // MiB of address space if not the default
}

// heavy expressions are not for the search command: they take long.
const maxSearchBits = 600

func (c *command) Check(r *pbt.Rec) error {
	if len(c.Script) > maxText {
		return pbt.ErrInvalid
	}
	if ok, _ := bounded(string(c.Script)); !ok {
		return pbt.ErrInvalid
	}
	var dir string
	args := make([]string, len(c.Args))
	for i, a := range c.Args {
		if strings.Contains(string(a), "\x00") {
			return pbt.ErrInvalid
		}
		args[i] = string(a)
		if strings.HasPrefix(args[i], "@") || strings.Contains(args[i], "=@") {
			if dir == "" {
				var err error
				if dir, err = os.MkdirTemp("", "verif-c15-"); err != nil {
					pbt.HarnessFailure(err.Error())
				}
				defer os.RemoveAll(dir)
				for name, content := range map[string]string{"script": string(c.Script), "tmpl": c.Tmpl} {
					if err := os.WriteFile(filepath.Join(dir, name), []byte(content), 0o644); err != nil {
						pbt.HarnessFailure(err.Error())
					}
				}
				if err := os.Mkdir(filepath.Join(dir, "dir"), 0o755); err != nil {
					pbt.HarnessFailure(err.Error())
				}
			}
			args[i] = strings.Replace(args[i], "@", dir+"/", 1)
		}
	}
	stdin := ""
	if c.Stdin {
		stdin = string(c.Script)
	}
	// The working directory is a scratch directory, as -out may name any file.
	cwd, err := os.MkdirTemp("", "verif-c15-cwd-")
	if err != nil {
		pbt.HarnessFailure(err.Error())
	}
	defer os.RemoveAll(cwd)
	mem := 6144
	if c.Mem > 0 {
		mem = c.Mem
	}
	cpu := 40
	if len(args) > 0 && args[0] == "search" {
		cpu = 60
	}
	res := cli.Addchain(cli.Limits{CPU: cpu, MemMB: mem, NoInput: c.Closed, Dir: cwd}, stdin, args...)
	sub := "none"
	for _, a := range args {
		if slices.Contains([]string{"search", "eval", "fmt", "gen", "cite", "version", "help", "flags", "commands"}, a) {
			sub = a
			break
		}
	}
	r.Class("%s exit %d", sub, res.Code)
	if c.Note != "" {
		r.Class("source:%s", c.Note)
	}
	if sub != "none" {
		r.NonTrivial()
	}
	what := func() string { return fmt.Sprintf("addchain %q (script %q)", args, cli.Tail(string(c.Script), 300)) }
	if err := res.Crash(); err != nil {
		if c.knownHuge(res) {
			return r.Known("huge-power", fmt.Sprintf("%s: %v", what(), cli.Tail(res.Stderr, 120)))
		}
		return fmt.Errorf("%s %v", what(), err)
	}
	if res.Code < 0 || res.Code > 2 {
		return fmt.Errorf("%s: unconventional exit status: %v", what(), res)
	}
	if res.Code != 0 && strings.TrimSpace(res.Stderr) == "" && strings.TrimSpace(res.Stdout) == "" {
		return fmt.Errorf("%s: exit status %d without any message", what(), res.Code)
	}
	switch c.Expect {
	case "ok":
		if res.Code != 0 {
			return fmt.Errorf("%s: the library succeeds, but %v", what(), res)
		}
		if res.Stdout == "" {
			return fmt.Errorf("%s: exit status 0 without any output", what())
		}
	case "silent":
		if res.Code != 0 {
			return fmt.Errorf("%s (template %q): the library succeeds, but %v", what(), cli.Tail(c.Tmpl, 200), res)
		}
	case "fail":
		if res.Code == 0 {
			return fmt.Errorf("%s: an error for the library, but exit status 0: stdout %q, %v", what(), cli.Tail(res.Stdout, 400), res)
		}
	}
	return nil
}

// knownHuge recognises the listed finding: an expression with a power whose value
// does not fit in memory.
func (c *command) knownHuge(res cli.Result) bool {
	if len(c.Args) != 2 || c.Args[0] != "search" {
		return false
	}
	_, err := ref.Calc(string(c.Args[1]), 1<<33)
	return errors.Is(err, ref.ErrTooBig) && (strings.Contains(res.Stderr, "out of memory") || res.Signal == syscall.SIGXCPU || res.Signal == syscall.SIGKILL)
}

func (c *command) Shrinks() []pbt.Case {
	var out []pbt.Case
	with := func(f func(d *command)) {
		d := *c
		d.Args = slices.Clone(c.Args)
		d.Expect = c.Expect
		f(&d)
		out = append(out, &d)
	}
	if c.Expect == "" {
		for i := range c.Args {
			with(func(d *command) { d.Args = slices.Delete(d.Args, i, i+1) })
		}
		for _, s := range gens.ShrinkText(string(c.Script)) {
			with(func(d *command) { d.Script = gens.Bytes(s) })
		}
	}
	return out
}

// library outcome of a script command.
func expect(sub string, build bool, s string) (e string) {
	defer func() {
		if recover() != nil {
			e = "" // the in-process sections report it
		}
	}()
	ok := func(err error) string {
		if err != nil {
			return "fail"
		}
		return "ok"
	}
	tree, err := parse.String(s)
	if err != nil {
		return "fail"
	}
	switch {
	case sub == "eval":
		_, err := acc.LoadString(s)
		return ok(err)
	case sub == "fmt" && build:
		p, err := acc.Translate(tree)
		if err != nil {
			return "fail"
		}
		_, err = acc.Build(p)
		return ok(err)
	case sub == "fmt":
		return "ok"
	case sub == "gen":
		_, err := gen.PrepareData(gen.Config{Allocator: allocators[0]}, tree)
		return ok(err)
	}
	return ""
}

var templateTokens = []string{"{{", "}}", "{{-", "-}}", ".", ".Chain", ".Ops", ".Script", ".Program", ".Program.Instructions", ".Program.Temporaries", ".Program.Output", ".Program.ReadCount", ".Meta", ".Meta.ReleaseVersion", ".Meta.Citation", ".Script.Statements", "$", "$x", ":=", "range", "with", "if", "else", "end", "define \"a\"", "template \"a\"", "block \"b\" .", "format", "add", "double", "shift", "inc", "split", "join", "lines", "printf \"%d\"", "printf \"%s %v\"", "print", "index", "len", "slice", "eq", "lt", "and", "or", "not", "html", "js", "urlquery", "call", "|", "(", ")", " ", "1", "0", "-1", "nil", "\"x\"", "`y`", "'c'", "1.5", ",", ".X", ".Y", ".S", ".I", ".J", ".Op", ".IsDouble", ".Operands", "break", "continue", "/* c */", "\n", "text"}

func genTemplate(t *rapid.T) pbt.Case {
	r := gens.Rand(t)
	var b strings.Builder
	if rapid.Bool().Draw(t, "builtin") {
		name := gens.Pick(t, "name", gen.BuiltinTemplateNames()...)
		s, err := gen.BuiltinTemplate(name)
		if err != nil {
			s = "{{.}}"
		}
		for i, n := 0, 1+r.IntN(4); i < n; i++ {
			p := r.IntN(len(s) + 1)
			tok := templateTokens[r.IntN(len(templateTokens))]
			switch r.IntN(3) {
			case 0:
				s = s[:p] + tok + s[p:]
			case 1:
				s = s[:p] + s[min(len(s), p+1+r.IntN(5)):]
			case 2:
				s = s[:p] + " " + tok + " " + s[min(len(s), p+1+r.IntN(8)):]
			}
		}
		b.WriteString(s)
	} else {
		for i, n := 0, 1+r.IntN(6); i < n; i++ {
			b.WriteString("{{")
			for k, m := 0, 1+r.IntN(5); k < m; k++ {
				b.WriteString(templateTokens[r.IntN(len(templateTokens))])
				b.WriteString(" ")
			}
			b.WriteString("}}")
		}
	}
	s := b.String()
	if strings.Count(s, "range") > 3 {
		s = strings.ReplaceAll(s, "range", "with")
	}
	return &tmpl{gens.Bytes(s), gens.Pick(t, "script", "return 1 + 1", "a = 1 + 1\nb = a + 1 << 3\nreturn b + a", "x = dbl 1\nreturn shl x 5", "_10 = 2*1\n_11 = 1 + _10\nreturn (_11 << 2 + _11) << 7 + _10")}
}

// Nested and repeated structures up to a number of bytes.
var nests = []struct{ open, core, close, sep string }{
	{"(", "1", ")", ""},
	{"(", "", "", ""},
	{"(1+", "1", ")", ""},
	{"(", "1", "+1)", ""},
	{"1+(", "1", ")", ""},
	{"2*(", "1", ")", ""},
	{"dbl (", "1", ")", ""},
	{"(", "1", "<<1)", ""},
	{"(", "1", " shl 1)", ""},
	{"(2*", "1", "<<1)", ""},
	{"1+", "1", "", ""},
	{"1 add ", "1", "", ""},
	{"dbl ", "1", "", ""},
	{"2*", "1", "", ""},
	{"[", "1", "]", ""},
	{"", "1", "<<1", ""},
	{"((", "1", ")", ""},
	{"(", "1", "))", ""},
	{"a=1+1\n", "return 1", "", ""},
	{"\n", "return 1", "", ""},
	{" ", "return 1", "", ""},
	{"\t\r", "1", "", ""},
	{"return ", "1", "", ""},
	{"1\n", "return 1", "", ""},
	{"a", "", "", ""},
	{"a", "=1+1\nreturn 1", "", ""},
	{"9", "", "", ""},
	{"0", "", "", ""},
	{"0x", "", "", ""},
	{"f", "", "", ""},
	{"[0]+", "[0]", "", ""},
	{"\x00", "", "", ""},
	{"\xff", "", "", ""},
	{"é", "", "", ""},
	{"-", "1", "", ""},
	{"1-", "1", "", ""},
	{"1^", "1", "", ""},
	{"2/", "1", "", ""},
	{"(((1+1)<<1)+", "1", ")", ""},
	{"(1+1)<<(", "1", ")", ""},
}

func nest(k, bytes int, prefix string) string {
	n := nests[k]
	m := max(0, (bytes-len(prefix)-len(n.core))/max(1, len(n.open)+len(n.close)))
	return prefix + strings.Repeat(n.open, m) + n.core + strings.Repeat(n.close, m)
}

// long scripts of many statements.
func statements(kind, count int) string {
	var b strings.Builder
	for i := 0; i < count; i++ {
		prev := "1"
		if i > 0 {
			prev = "v" + strconv.Itoa(i-1)
		}
		switch kind {
		case 0:
			fmt.Fprintf(&b, "v%d = dbl %s\n", i, prev)
		case 1:
			fmt.Fprintf(&b, "v%d = %s + 1\n", i, prev)
		case 2:
			fmt.Fprintf(&b, "v%d = 1 + 1\n", i)
		case 3:
			fmt.Fprintf(&b, "v%d = [%d] + [%d]\n", i, i, i/2)
		case 4:
			fmt.Fprintf(&b, "v%d = %s << %d\n", i, prev, 1+i%3)
		case 5:
			fmt.Fprintf(&b, "v%d = %s\n", i, prev)
		case 6:
			fmt.Fprintf(&b, "v%d = (%s + %s) + %s\n", i, prev, prev, prev)
		}
	}
	b.WriteString("return 1 + 1")
	return b.String()
}

func genText(t *rapid.T) pbt.Case {
	c := &text{}
	switch kind := gens.Uni(t, "kind", 0, 9); kind {
	case 0:
		c.Note = "bytes"
		r := gens.Rand(t)
		b := make([]byte, r.IntN(gens.Pick(t, "len", 8, 40, 300)))
		for i := range b {
			b[i] = byte(r.UintN(256))
		}
		c.S = gens.Bytes(b)
	case 1:
		c.Note = "soup"
		c.S = gens.Bytes(gens.TokenSoup(t, 30))
	case 2, 3, 4:
		c.Note = "script"
		c.S = gens.Bytes(gens.Render(t, gens.Script(t, opts(t)), rapid.Bool().Draw(t, "wild")))
	case 5, 6, 7:
		c.Note = "mutated script"
		s := gens.Render(t, gens.Script(t, opts(t)), rapid.Bool().Draw(t, "wild"))
		c.S = gens.Bytes(gens.Mutate(t, s))
	case 8:
		c.Note = "tree"
		leaf := func() *ref.Expr {
			if rapid.Bool().Draw(t, "name") {
				return ref.Id(gens.Pick(t, "id", "a", "dbl", "x1", "return", "_"))
			}
			return ref.Opd(gens.Pick(t, "opd", uint64(0), 1, 2, 5, 1<<31, 1<<32, 1<<63, math.MaxUint64))
		}
		s := ref.Script{{Name: "a", Expr: gens.Tree(t, 4, leaf)}, {Expr: gens.Tree(t, gens.Pick(t, "depth", 3, 5, 8), leaf)}}
		c.S = gens.Bytes(gens.Render(t, s, false))
	case 9:
		c.Note = "expression"
		c.S = gens.Bytes(expression(t))
	}
	if len(c.S) > maxText {
		c.S = c.S[:maxText]
	}
	return c
}

func opts(t *rapid.T) gens.ScriptOpts {
	return gens.ScriptOpts{
		MaxStmts: gens.Pick(t, "stmts", 2, 6, 20), MaxDepth: gens.Pick(t, "depth", 2, 4, 7), MaxShift: gens.Pick(t, "shift", 3, 20, 200),
		MaxOps: 300, Illegal: gens.Pick(t, "illegal", 0, 6, 40), Index: gens.Pick(t, "index", 0, 60, 250), Dangling: rapid.Bool().Draw(t, "dangling"), Names: gens.Uni(t, "names", 0, 2),
	}
}

// expression text, legal or not, that no evaluator needs long for.
func expression(t *rapid.T) string {
	r := gens.Rand(t)
	lit := []string{"0", "1", "2", "3", "-1", "-0", "7", "10", "64", "0x", "0x0", "0xff", "0b", "0b101", "-0x1f", "18446744073709551616", "00", "08", "0xg", "1e3", "", "x", "340282366920938463463374607431768211457", "_", "-", "--1"}
	ops := []string{"+", "-", "*", "/", "^", "**", "", "%", "<<", ")", " ", "/0", "-1+1/", "^-1", "^0"}
	for {
		var b strings.Builder
		for i, n := 0, 1+r.IntN(gens.Pick(t, "n", 2, 5, 12)); i < n; i++ {
			if i > 0 {
				o := ops[r.IntN(len(ops))]
				if r.IntN(3) > 0 {
					o = ops[r.IntN(5)]
				}
				b.WriteString(o)
			}
			if r.IntN(6) == 0 {
				b.WriteString(strings.Repeat(" ", 1+r.IntN(3)))
			}
			l := lit[r.IntN(len(lit))]
			if r.IntN(3) > 0 {
				l = lit[r.IntN(9)]
			}
			b.WriteString(l)
		}
		s := b.String()
		if !ref.TooBigToTry(s, maxBits) {
			return s
		}
	}
}

func searchable(s string) bool {
	if ref.TooBigToTry(s, maxBits) {
		return false
	}
	ok := true
	func() {
		defer func() { recover() }()
		if x, err := calc.Eval(s); err == nil && x != nil && x.BitLen() > maxSearchBits {
			ok = false
		}
	}()
	return ok
}

func genSearch(t *rapid.T) pbt.Case {
	c := &command{Note: "search"}
	var e string
	for {
		e = ""
		switch gens.Uni(t, "expr", 0, 9) {
		case 0, 1, 2:
			e = expression(t)
		case 3:
			e = gens.Pick(t, "nonpositive", "0", "-1", "-5", "1-1", "2-3", "0x0", "0b0", "3*0", "1/2", "-1/2", "1-2^64", "0^5", "-2^3", "-18446744073709551616", "0-0", " 0 ")
		case 4:
			e = gens.Pick(t, "divzero", "1/0", "0/0", "-1/0", "5/(1-1)", "7/0^3", "1/0x0", "2^5/0+1", "1+1/0b0", "9/-0", "3-4/00", "1/0*0", "2^1/0")
		case 5:
			e = gens.Pick(t, "malformed", "", " ", "+", "1+", "*2", "1 1", "abc", "(1)", "1+(2", "0x", "0b2", "--1", "1..2", "1_000", "²", "\xff", "1\n", "\t1", "1;2", "%d", "-", "^", "2^", "^2", "1//2", "1e9", "٣")
		case 6, 7:
			n, _ := gens.Target(t, gens.Pick(t, "bits", 8, 20, 64, 130))
			e = gens.Pick(t, "fmt", n.String(), fmt.Sprintf("0x%x", n), fmt.Sprintf("0b%b", n), fmt.Sprintf("%v-1", n), fmt.Sprintf("-%v", n))
		case 8:
			k := gens.Uni(t, "k", 1, 130)
			e = fmt.Sprintf("2^%d - %d", k, gens.Uni(t, "c", 0, 40))
		case 9:
			e = strconv.Itoa(gens.Uni(t, "small", -3, 70))
		}
		if searchable(e) && !strings.Contains(e, "\x00") {
			break
		}
	}
	sane := true
	var flags []gens.Bytes
	flag := func(name, value string) {
		switch gens.Uni(t, "form", 0, 2) {
		case 0:
			flags = append(flags, gens.Bytes("-"+name), gens.Bytes(value))
		case 1:
			flags = append(flags, gens.Bytes("-"+name+"="+value))
		case 2:
			flags = append(flags, gens.Bytes("--"+name+"="+value))
		}
	}
	if gens.Uni(t, "p?", 0, 1) == 0 {
		p := gens.Pick(t, "p", "1", "2", "3", "8", "199", "200", "201", "100000", "1000000000", "99999999999", "9223372036854775807", "4611686018427387904", "0", "-1", "-200", "-9223372036854775808", "9223372036854775808", "abc", "", "0x10", "1e3", "1.5", " 1")
		if v, err := strconv.ParseInt(p, 0, 64); err != nil || v < 1 {
			sane = false
		}
		flag("p", p)
	}
	for _, f := range []string{"add", "double"} {
		if gens.Uni(t, f, 0, 2) == 0 {
			v := gens.Pick(t, "cost", "1", "0.5", "2", "3.25", "1e300", "1e-300", "0", "-1", "-0", "NaN", "Inf", "-Inf", "+inf", "1e308", "1.8e308", "1e999", "0x1p-3", "abc", "", "1_0", "5e-324", "-1e308")
			if x, err := strconv.ParseFloat(v, 64); err != nil || !(x > 0 && x < 1e301) {
				sane = false
			}
			flag(f, v)
		}
	}
	if gens.Uni(t, "v", 0, 5) == 0 {
		flags = append(flags, "-v")
	}
	if gens.Uni(t, "weird", 0, 14) == 0 {
		flags = append(flags, gens.Bytes(gens.Pick(t, "flag", "-x", "--", "-h", "--help", "-", "-p", "-add", "-=", "---", "-v=maybe", "-v=false", "-%s")))
		sane = false
	}
	c.Args = append([]gens.Bytes{"search"}, flags...)
	if strings.HasPrefix(e, "-") && gens.Uni(t, "dashdash", 0, 3) > 0 {
		c.Args = append(c.Args, "--")
	}
	if gens.Uni(t, "noexpr", 0, 30) == 0 {
		sane = false
	} else {
		if strings.HasPrefix(e, "-") && c.Args[len(c.Args)-1] != "--" {
			sane = false
		}
		c.Args = append(c.Args, gens.Bytes(e))
	}
	if gens.Uni(t, "extra", 0, 20) == 0 {
		c.Args = append(c.Args, gens.Bytes(expression(t)))
		if strings.Contains(string(c.Args[len(c.Args)-1]), "\x00") {
			c.Args = c.Args[:len(c.Args)-1]
		}
	}
	if sane {
		func() {
			defer func() { recover() }()
			x, err := calc.Eval(e)
			switch {
			case err != nil || x.Sign() <= 0:
				c.Expect = "fail"
			default:
				c.Expect = "ok"
			}
		}()
	}
	return c
}

func genScriptCommand(t *rapid.T) pbt.Case {
	c := &command{}
	tc := genText(t).(*text)
	if gens.Uni(t, "long", 0, 19) == 0 {
		k := gens.Uni(t, "nest", 0, len(nests)-1)
		tc = &text{S: gens.Bytes(nest(k, gens.Pick(t, "bytes", 100, 1000, 4000), gens.Pick(t, "prefix", "", "return ", "a = "))), Note: "nested"}
	}
	c.Script, c.Note = tc.S, tc.Note
	ok, _ := bounded(string(c.Script))
	if !ok {
		c.Script, c.Note = "return 1 + 1", "plain"
	}
	sub := gens.Pick(t, "sub", "eval", "fmt", "fmt", "gen", "gen")
	c.Args = []gens.Bytes{gens.Bytes(sub)}
	build, sane := false, true
	file := gens.Bytes("@script")
	switch sub {
	case "fmt":
		if rapid.Bool().Draw(t, "b") {
			build = true
			c.Args = append(c.Args, gens.Bytes(gens.Pick(t, "bflag", "-b", "--b", "-b=true", "-b=1")))
		}
	case "gen":
		switch gens.Uni(t, "genflags", 0, 7) {
		case 0, 1, 2:
			c.Args = append(c.Args, "-type", gens.Bytes(gens.Pick(t, "type", gen.BuiltinTemplateNames()...)))
		case 3:
			sane = false
			c.Args = append(c.Args, "-type", gens.Bytes(gens.Pick(t, "type", "", "nosuch", "../gen", "listing.tmpl", "templates/listing", "/etc/passwd", "%s", "a\nb", ".", "..")))
		case 4:
			sane = false
			c.Tmpl = string(genTemplate(t).(*tmpl).T)
			c.Args = append(c.Args, "-tmpl", gens.Bytes(gens.Pick(t, "tmpl", "@tmpl", "@tmpl", "@dir", "@missing", "@script")))
		case 5:
			sane = false
			c.Args = append(c.Args, gens.Bytes("-out="+gens.Pick(t, "out", "@out", "@dir", "@missing/x", "@script", "")))
		}
	}
	switch gens.Uni(t, "input", 0, 9) {
	case 0:
		sane = false
		c.Args = append(c.Args, gens.Bytes(gens.Pick(t, "file", "@dir", "@missing", "@missing/x", "-", "", "@script/x", "\xff", "%d")))
		c.Stdin = rapid.Bool().Draw(t, "stdin")
	case 1, 2, 3:
		c.Stdin = true
	case 4:
		c.Args = append(c.Args, file, "extra", "-b")
		sane = false
	case 5:
		if gens.Uni(t, "closed", 0, 3) == 0 {
			c.Closed = true
			sane = false
		} else {
			c.Args = append(c.Args, file)
		}
	default:
		c.Args = append(c.Args, file)
	}
	if gens.Uni(t, "weird", 0, 19) == 0 {
		sane = false
		i := gens.Uni(t, "at", 0, len(c.Args))
		c.Args = slices.Insert(c.Args, i, gens.Bytes(gens.Pick(t, "flag", "-x", "--", "-h", "-help", "-", "-b", "-type", "-out", "-tmpl", "-b=maybe", "-%d", "")))
	}
	if sane {
		c.Expect = expect(sub, build, string(c.Script))
	}
	return c
}

var gridScripts = []string{
	"", "\n", " ", "\x00", "1", "return", "return 1", "return 1\n", "1+1", "return 1 + 1", "return 1 + 1\n", "a = 1 + 1", "a = 1 + 1\n",
	"a = 1 + 1\nreturn a", "a = 1 + 1\nreturn a + a\n", "x = 1 + 1\nz = x + 1\nreturn z << 3", "return 1 << 0", "return 1 << 5", "dbl 1", "return dbl 1 add [1]",
	"return [0] + [0]", "return [1] + 1", "a = 1\nreturn a", "a = 1 + 1\na = a + 1\nreturn a", "return a", "a = 1 + 1\nb = 1 + 1\nreturn b", "a = 1 + 1\nb = a + 1\nreturn a + a",
	"t0 = 1 + 1\nt1 = t0 + 1\nreturn t1 + t0", "return 2*(1 + 1) + 1", "a = (1 + 1\nreturn a", "return 1 + 1 extra", "\xef\xbb\xbfreturn 1 + 1", "return 1 + 1\r\n", "return 1 << 18446744073709551615", "return 1 << 18446744073709551616", "return [18446744073709551615] + 1", "return [-1] + 1", "return 1 + 1\n\n\nreturn 1 + 1",
}

var gridTemplates = []string{
	"", "\n", "\r\n", " ", "x", "x\n", "\x00", "\xff", "{{", "}}", "{{}}", "{{/* */}}", "{{/* */}}\n", "{{.}}", "{{ .Chain }}", "{{ .Nosuch }}", "{{ range .Chain }}{{ . }}{{ end }}", "{{ end }}", "{{ if }}",
	"{{ range .Program.Instructions }}{{ .Output }}{{ end }}", "{{ add 1 1 }}", "{{ nosuch }}", "{{ index .Chain 99999 }}", "{{ index .Chain -1 }}", "{{ (index .Chain 0).Nosuch }}", "{{ template \"a\" }}", "{{ define \"a\" }}{{ template \"a\" }}{{ end }}", "{{ len .Ops }}", "{{ printf \"%d %s %!\" 1 }}", "%d %s", "{{ .Script }}", "{{ .Program }}", "{{ .Meta.ReleaseTime }}", "{{ .Meta.Nosuch }}", "{{ format .Script }}", "{{ format 1 }}", "{{ split \"\" \"\" }}", "{{ lines \"\" }}", "{{ inc nil }}", "{{ $x }}", "{{ break }}", "{{ call nil }}",
}

// gridCommands enumerates special scripts, templates, inputs and outputs.
func gridCommands(e *pbt.Enum) {
	do := func(c *command) bool { return !e.Mine() || e.Do(c) }
	args := func(s ...string) (a []gens.Bytes) {
		for _, x := range s {
			a = append(a, gens.Bytes(x))
		}
		return a
	}
	for _, s := range gridScripts {
		if ok, _ := bounded(s); !ok {
			// The bound on shifts does not matter to commands that do not evaluate.
			continue
		}
		for _, sub := range [][]string{{"eval"}, {"fmt"}, {"fmt", "-b"}, {"gen"}} {
			want := expect(sub[0], len(sub) > 1, s)
			if want == "ok" && (sub[0] == "fmt" || sub[0] == "eval") {
				want = "silent" // an empty script is formatted as nothing
			}
			if !do(&command{Args: args(append(slices.Clone(sub), "@script")...), Script: gens.Bytes(s), Expect: want}) ||
				!do(&command{Args: args(sub...), Script: gens.Bytes(s), Stdin: true, Expect: want}) {
				return
			}
		}
		for _, name := range gen.BuiltinTemplateNames() {
			for _, out := range []string{"@out", "@script"} {
				want := expect("gen", false, s)
				if want == "ok" {
					want = "silent"
				}
				if !do(&command{Args: args("gen", "-type", name, "-out", out, "@script"), Script: gens.Bytes(s), Expect: want}) {
					return
				}
			}
		}
	}
	for i, tm := range gridTemplates {
		for j, s := range []string{"return 1 + 1", "a = 1 + 1\nb = a << 3 + 1\nreturn b + a\n", "", "return 1 + 2"} {
			if e.Tier == pbt.Quick && j > 1 && i > 8 {
				continue
			}
			want := ""
			_ = pbt.Catch(func() error {
				want = "fail"
				tree, err := parse.String(s)
				if err != nil {
					return nil
				}
				data, err := gen.PrepareData(gen.Config{Allocator: allocators[0]}, tree)
				if err != nil {
					return nil
				}
				if strings.Contains(tm, "define \"a\"") {
					want = ""
					return nil
				}
				if gen.Generate(io.Discard, tm, data) == nil {
					want = "silent"
				}
				return nil
			})
			for _, extra := range [][]string{{}, {"-out", "@out"}, {"-out", "@dir"}, {"-out", "@missing/x"}, {"-out", "@tmpl"}, {"-type", "nosuch"}} {
				w := want
				if len(extra) > 0 && (extra[1] == "@dir" || extra[1] == "@missing/x") {
					w = "fail"
				}
				if e.Tier == pbt.Quick && len(extra) > 0 && i > 8 && i%6 != len(extra[1])%6 {
					continue
				}
				a := append([]string{"gen", "-tmpl", "@tmpl"}, extra...)
				if !do(&command{Args: args(append(a, "@script")...), Script: gens.Bytes(s), Tmpl: tm, Expect: w}) {
					return
				}
			}
		}
	}
}

// gridSearches enumerates special expressions and settings of the search command.
func gridSearches(e *pbt.Enum) {
	do := func(want string, flags []string, expr string) bool {
		c := &command{Args: []gens.Bytes{"search"}, Expect: want, Note: "grid"}
		for _, f := range flags {
			c.Args = append(c.Args, gens.Bytes(f))
		}
		c.Args = append(c.Args, "--", gens.Bytes(expr))
		return !e.Mine() || e.Do(c)
	}
	exprs := []string{
		"0", "-0", "00", "0x0", "0b0", "-1", "-2", "1-1", "1-2", "0*5", "1/2", "-1/2", "0^1", "0^0", "0-2^64", "-18446744073709551616",
		"1/0", "0/0", "1/0x0", "5/(1-1)", "1/0+1", "3-1/0", "2^3/0", "0/0*0", "1/-0", "1/00",
		"1", "0x1", "0b1", "2-1", "1^5", "2^0", "0^0", "5/3", "-1+2", "--1", "2", "3", "4", "7", "8", "15", "16", "17",
		"", " ", "\t", "\n", "+", "-", "*", "/", "^", "1+", "+1", "1 1", "0x", "0b", "0b2", "0xg", "1_0", "1e1", "1.0", "(1)", "abc", "2^-1", "2^-0", "2**3", "%", "%d", "\xff", "１", "1\n", "1;",
	}
	for _, x := range exprs {
		want := ""
		_ = pbt.Catch(func() error {
			v, err := calc.Eval(x)
			if want = "ok"; err != nil || v.Sign() <= 0 {
				want = "fail"
			}
			return nil
		})
		for i, flags := range [][]string{{}, {"-p", "1"}, {"-v", "-p=3"}, {"-add", "0.5", "-double=2"}} {
			if (e.Tier == pbt.Thorough || i < 2) && !do(want, flags, x) {
				return
			}
		}
	}
	for _, x := range []string{"1", "2", "3", "6", "0", "31", "2^20-3"} {
		for _, p := range []string{"0", "-1", "-2147483648", "-9223372036854775808", "-9223372036854775809", "", "x", "1.5"} {
			if !do("fail", []string{"-p=" + p}, x) {
				return
			}
		}
		want := "ok"
		if x == "0" {
			want = "fail"
		}
		for _, p := range []string{"1", "2", "3", "199", "1000", "65536", "2147483647", "2147483648", "4611686018427387904", "9223372036854775807"} {
			if !do(want, []string{"-p=" + p}, x) {
				return
			}
		}
		for _, f := range []string{"-add", "-double"} {
			for _, v := range []string{"NaN", "Inf", "-Inf", "0", "-0", "-1", "1e308", "-1e308", "5e-324"} {
				w := ""
				if want == "fail" {
					w = "fail"
				}
				if !do(w, []string{f + "=" + v}, x) || (e.Tier == pbt.Thorough && !do(w, []string{"-add=" + v, "-double=NaN", "-v"}, x)) {
					return
				}
			}
			for _, v := range []string{"", "x", "1e999"} {
				if !do("fail", []string{f + "=" + v}, x) {
					return
				}
			}
		}
	}
}

func genOther(t *rapid.T) pbt.Case {
	c := &command{Note: "other"}
	words := []gens.Bytes{"search", "eval", "fmt", "gen", "cite", "version", "help", "flags", "commands", "nosuch", "", "-", "--", "-h", "-help", "--help", "-v", "-x", "1", "2^5", "@missing", "@dir", "@script", "%s", "\xff", "-b", "-p=0", "search ", "Search"}
	for i, n := 0, gens.Uni(t, "n", 0, 4); i < n; i++ {
		c.Args = append(c.Args, gens.Pick(t, "word", words...))
	}
	c.Script = gens.Bytes(gens.Pick(t, "script", "", "return 1 + 1", "return", "\x00"))
	c.Stdin = rapid.Bool().Draw(t, "stdin")
	return c
}

func main() {
	pbt.Main(spec())
}

func spec() *pbt.Spec {
	return &pbt.Spec{
		ID:   "C15",
		Rule: "A case is a text given to every library entry point that takes text, a template text, or a command line (with script, template and standard input); it is non-trivial when the text has at least three bytes, the script of the template can be generated from, or the command line names a subcommand. Oracle: no panic, fatal error, deadlock or exhausted CPU or memory limit; exit status 0, 1 or 2, a message with a failure, and success exactly when the corresponding library functions succeed.",
		Assumptions: []string{
			"Scripts have at most 16 KiB and their shift amounts add up to at most 4096.",
			"Values of expressions stay below 30000 bits (600 for search, which takes long beyond), except for the listed known finding.",
			"Limits of 40 s (search: 60 s) of CPU and 6 GiB of address space per command, two to three orders of magnitude above what the cases need.",
			"Templates that loop over huge numbers are not generated: template text is a program of the user's.",
		},
		Kinds: map[string]func() pbt.Case{
			"text":    func() pbt.Case { return &text{} },
			"tmpl":    func() pbt.Case { return &tmpl{} },
			"command": func() pbt.Case { return &command{} },
		},
		Sections: []pbt.Section{
			{Name: "known-findings", Shards: 1, CaseCPU: 600, Enum: func(e *pbt.Enum) {
				for _, s := range []gens.Bytes{"2^99999999999", "2^4611686018427387904"} {
					if !e.Do(&command{Args: []gens.Bytes{"search", s}, Mem: 1500}) {
						return
					}
				}
			}},
			{Name: "short-texts", Enum: func(e *pbt.Enum) {
				do := func(s string) bool { return !e.Mine() || e.Do(&text{S: gens.Bytes(s)}) }
				if !do("") {
					return
				}
				for a := 0; a < 256; a++ {
					if !do(string([]byte{byte(a)})) {
						return
					}
					for b := 0; b < 256; b++ {
						if !do(string([]byte{byte(a), byte(b)})) {
							return
						}
					}
				}
				for _, a := range gens.Tokens {
					for _, b := range gens.Tokens {
						for _, c := range gens.Tokens {
							if !do(a+b+c) || !do("return "+a+b+c) {
								return
							}
							if e.Tier == pbt.Thorough {
								for _, d := range gens.Tokens {
									if !do(a + b + c + d) {
										return
									}
								}
							}
						}
					}
				}
			}},
			{Name: "nested-and-long", Enum: func(e *pbt.Enum) {
				sizes := pbt.Pick(e.Tier, []int{10, 100, 1000, 4000}, []int{10, 30, 100, 300, 1000, 3000, 6000, 10000, maxText})
				for k := range nests {
					for _, n := range sizes {
						for _, prefix := range []string{"", "return ", "a = ", "return 1 << "} {
							if e.Mine() && !e.Do(&text{S: gens.Bytes(nest(k, n, prefix)), Note: "nested"}) {
								return
							}
						}
					}
				}
				for kind := 0; kind <= 6; kind++ {
					for _, n := range pbt.Pick(e.Tier, []int{1, 10, 60, 300}, []int{1, 3, 10, 30, 100, 300, 600}) {
						s := statements(kind, n)
						if len(s) <= maxText && e.Mine() && !e.Do(&text{S: gens.Bytes(s), Note: "statements"}) {
							return
						}
					}
				}
			}},
			{Name: "long-commands", CaseCPU: 600, Enum: func(e *pbt.Enum) {
				for k := range nests {
					for i, args := range [][]gens.Bytes{{"eval"}, {"fmt"}, {"fmt", "-b"}, {"gen"}} {
						if e.Tier == pbt.Quick && i != k%4 {
							continue
						}
						s := nest(k, maxText, "return ")
						if ok, _ := bounded(s); !ok {
							continue
						}
						if e.Mine() && !e.Do(&command{Args: append(slices.Clone(args), "@script"), Script: gens.Bytes(s)}) {
							return
						}
					}
				}
			}},
			{Name: "command-grid", CaseCPU: 600, Enum: gridCommands},
			{Name: "search-grid", CaseCPU: 600, Enum: gridSearches},
			{Name: "random-texts", Fuzz: 90, N: 60000, Gen: genText},
			{Name: "templates", Fuzz: 90, N: 6000, Gen: genTemplate},
			{Name: "script-commands", N: 3200, Gen: genScriptCommand, CaseCPU: 600},
			{Name: "search-commands", N: 1600, Gen: genSearch, CaseCPU: 600},
			{Name: "other-commands", N: 640, Gen: genOther, CaseCPU: 600},
		},
	}
}
