// C13: target expressions evaluate by the standard rules of integer arithmetic.
package main

import (
	"bufio"
	"errors"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"syscall"

	"github.com/mmcloughlin/addchain/internal/calc"
	"pgregory.net/rapid"

	"github.com/mmcloughlin/addchain/verif/cli"
	"github.com/mmcloughlin/addchain/verif/gens"
	"github.com/mmcloughlin/addchain/verif/pbt"
	"github.com/mmcloughlin/addchain/verif/ref"
)

const maxBits = 30000

type expr struct {
	S    string `json:"s"`
	Note string `json:"note,omitempty"`
	// CLI also runs `addchain search`.
	CLI bool `json:"cli,omitempty"`
}

func (c *expr) Check(r *pbt.Rec) error {
	want, err := ref.Calc(c.S, maxBits)
	if c.Note != "" {
		r.Class("source:%s", c.Note)
	}
	switch {
	case errors.Is(err, ref.ErrDivZero), errors.Is(err, ref.ErrTooBig), errors.Is(err, ref.ErrLeadingZero):
		r.Class("outside: %v", err)
		return nil
	case errors.Is(err, ref.ErrMalformed):
		if strings.Contains(c.S, "0X") || strings.Contains(c.S, "0B") || strings.ContainsAny(c.S, "ABCDEF") {
			r.Class("outside: other literal forms")
			return nil
		}
		if ref.TooBigToTry(c.S, maxBits) {
			r.Class("outside: huge power in a malformed text")
			return nil
		}
		got, gotErr := calc.Eval(c.S)
		if gotErr == nil {
			return fmt.Errorf("Eval(%q) = %v, want an error", c.S, got)
		}
		r.Class("malformed")
		if len(strings.TrimSpace(c.S)) > 1 {
			r.NonTrivial()
		}
		return nil
	case err != nil:
		return err
	}
	got, gotErr := calc.Eval(c.S)
	if gotErr != nil {
		return fmt.Errorf("Eval(%q): %v, want %v", c.S, gotErr, want)
	}
	if got == nil || got.Cmp(want) != 0 {
		return fmt.Errorf("Eval(%q) = %v, want %v", c.S, got, want)
	}
	// The result belongs to the caller: nothing it does with it changes another one.
	words := got.Bits()
	for i := range words {
		words[i] = ^words[i]
	}
	got.SetInt64(-7)
	if got, gotErr = calc.Eval(c.S); gotErr != nil || got == nil || got.Cmp(want) != 0 {
		return fmt.Errorf("Eval(%q) = %v, %v after an earlier result was overwritten, want %v", c.S, got, gotErr, want)
	}
	ops := operators(c.S)
	if len(ops) >= 2 {
		r.NonTrivial()
		r.Class("operators: %d", min(len(ops), 8))
	}
	if want.Sign() <= 0 {
		r.Class("value <= 0")
	}
	if c.CLI && want.Sign() > 0 && want.BitLen() <= 2000 && cli.Bin() != "" {
		r.Class("cli")
		r.Evals(1)
		return reported(c.S, want)
	}
	return nil
}

// operators of a well-formed expression.
func operators(s string) string {
	var out []byte
	operand := true
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == ' ':
		case strings.IndexByte("+-*/^", s[i]) >= 0 && !operand:
			out = append(out, s[i])
			operand = true
		default:
			operand = false
		}
	}
	return string(out)
}

// reported starts a search and compares the value it reports first; the search
// itself is then ended.
func reported(s string, want *big.Int) error {
	var lines []string
	started := false
	for try := 0; try < 3; try++ {
		cmd := exec.Command(cli.Bin(), "search", "-p", "1", "--", s)
		cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "ADDCHAIN_PROFILE=")
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		out, err := cmd.StderrPipe()
		if err != nil {
			pbt.HarnessFailure(err.Error())
		}
		if err := cmd.Start(); err != nil {
			continue
		}
		started = true
		lines = nil
		sc := bufio.NewScanner(out)
		sc.Buffer(nil, 1<<20)
		for sc.Scan() {
			lines = append(lines, sc.Text())
			if strings.Contains(sc.Text(), "dec: ") || len(lines) > 50 {
				break
			}
		}
		cmd.Process.Kill()
		for sc.Scan() {
		}
		cmd.Wait()
		if len(lines) > 0 {
			break
		}
	}
	if !started {
		pbt.HarnessFailure("cannot start search")
	}
	hex, dec := false, false
	for _, l := range lines {
		if i := strings.Index(l, "hex: "); i >= 0 {
			hex = true
			if l[i+5:] != want.Text(16) {
				return fmt.Errorf("search %q reports hex %s, want %x", s, l[i+5:], want)
			}
		}
		if i := strings.Index(l, "dec: "); i >= 0 {
			dec = true
			if l[i+5:] != want.Text(10) {
				return fmt.Errorf("search %q reports dec %s, want %v", s, l[i+5:], want)
			}
		}
	}
	if !hex || !dec {
		return fmt.Errorf("search %q does not report the value %v: %q", s, want, lines)
	}
	return nil
}

func (c *expr) Shrinks() []pbt.Case {
	var out []pbt.Case
	for i := range c.S {
		out = append(out, &expr{S: c.S[:i] + c.S[i+1:], CLI: c.CLI})
	}
	for i := 0; i+1 < len(c.S); i++ {
		for k := i + 2; k <= len(c.S) && k < i+12; k++ {
			out = append(out, &expr{S: c.S[:i] + c.S[k:], CLI: c.CLI})
		}
	}
	for i := range c.S {
		if c.S[i] > '1' && c.S[i] <= '9' {
			out = append(out, &expr{S: c.S[:i] + "1" + c.S[i+1:], CLI: c.CLI})
		}
	}
	return out
}

func literal(t *rapid.T, size int) string {
	var x *big.Int
	switch gens.Uni(t, "lit", 0, 3) {
	case 0:
		x = big.NewInt(int64(gens.Uni(t, "v", 0, 3)))
	case 1:
		x = big.NewInt(int64(gens.Uni(t, "v", 0, 40)))
	case 2:
		x = big.NewInt(int64(gens.Pick(t, "v", 7, 8, 9, 10, 15, 16, 17, 19, 31, 32, 63, 64, 99, 100, 127, 128, 255, 256, 521)))
	default:
		x = gens.Bits(gens.Rand(t), gens.Uni(t, "bits", 1, size))
	}
	s := ""
	if gens.Uni(t, "neg", 0, 4) == 0 {
		s = "-"
	}
	zeros := ""
	if gens.Uni(t, "zeros", 0, 5) == 0 {
		zeros = strings.Repeat("0", gens.Uni(t, "nz", 1, 3))
	}
	switch gens.Uni(t, "base", 0, 4) {
	case 0:
		return s + "0x" + zeros + x.Text(16)
	case 1:
		if x.BitLen() > 200 {
			x.Rsh(x, uint(x.BitLen()-200))
		}
		return s + "0b" + zeros + x.Text(2)
	}
	return s + x.Text(10)
}

func spaces(t *rapid.T, on int) string {
	if gens.Uni(t, "sp", 0, 5) >= on {
		return ""
	}
	return strings.Repeat(" ", gens.Int(t, "nsp", 1, 3))
}

var opSets = []string{"+-*/^", "+-", "*/", "^", "^^*/", "+-^^", "-/", "/^", "-^"}

// wellformed draws an expression within the bounds.
func wellformed(t *rapid.T, maxOperands int) string {
	n := gens.Uni(t, "operands", 1, maxOperands)
	sp := gens.Pick(t, "spaces", 0, 0, 1, 3, 6)
	set := gens.Pick(t, "opset", opSets...)
	r := gens.Rand(t)
	parts := []string{}
	for i := 0; i < n; i++ {
		parts = append(parts, literal(t, gens.Pick(t, "size", 8, 16, 64, 65, 256, 1024)))
	}
	var s string
	for try := 0; try < 12; try++ {
		s = spaces(t, sp)
		for i, p := range parts {
			if i > 0 {
				op := set[r.IntN(len(set))]
				if op == '^' && r.IntN(3) == 0 {
					parts[i] = fmt.Sprint(r.IntN(6))
					p = parts[i]
				}
				s += spaces(t, sp) + string(op) + spaces(t, sp)
			}
			s += p
		}
		s += spaces(t, sp)
		_, err := ref.Calc(s, maxBits)
		if err == nil {
			return s
		}
		if try == 5 {
			set = "+-*/^"
		}
		if try >= 2 { // smaller literals make powers fit
			k := r.IntN(len(parts))
			parts[k] = fmt.Sprint(r.IntN(4))
		}
	}
	return strings.Join(parts, "+")
}

func genWell(operands int) func(*rapid.T) pbt.Case {
	return func(t *rapid.T) pbt.Case { return &expr{S: wellformed(t, operands), Note: "well-formed"} }
}

func genCLI(t *rapid.T) pbt.Case { return &expr{S: wellformed(t, 5), Note: "cli", CLI: true} }

var junk = []string{"+", "-", "*", "/", "^", " ", "(", ")", ".", ",", "0x", "0b", "x", "b", "g", "a", "f", "\t", "\n", "%", "**", "//", "--", "- ", "0b2", "0xg", "=", "!", "é", "\x00", "_", "0o", "\r", "\v", "\u00a0", ";", "'", "e", "1", "2", "0"}

// genMalformed mutates a small well-formed expression.
func genMalformed(t *rapid.T) pbt.Case {
	for try := 0; ; try++ {
		n := gens.Uni(t, "operands", 1, 4)
		var s string
		for i := 0; i < n; i++ {
			if i > 0 {
				s += spaces(t, 2) + gens.Pick(t, "op", "+", "-", "*", "/", "^") + spaces(t, 2)
			}
			s += gens.Pick(t, "lit", "0", "1", "2", "3", "-1", "-2", "0x1", "0x2f", "0b1", "0b10", "17", "-0x3", "-0b1", "255")
		}
		for i, k := 0, gens.Uni(t, "edits", 1, 2); i < k; i++ {
			at := gens.Uni(t, "at", 0, len(s))
			switch gens.Uni(t, "edit", 0, 3) {
			case 0:
				if at < len(s) {
					s = s[:at] + s[at+1:]
				}
			case 1, 2:
				s = s[:at] + gens.Pick(t, "junk", junk...) + s[at:]
			case 3:
				end := min(len(s), at+gens.Uni(t, "len", 1, 4))
				s = s[:at] + s[end:]
			}
		}
		if !ref.TooBigToTry(s, maxBits) {
			return &expr{S: s, Note: "mutated"}
		}
		if try > 20 {
			return &expr{S: "1+", Note: "mutated"}
		}
	}
}

func genSoup(t *rapid.T) pbt.Case {
	var b strings.Builder
	for i, n := 0, gens.Uni(t, "n", 0, 10); i < n; i++ {
		b.WriteString(gens.Pick(t, "tok", junk...))
	}
	if s := b.String(); !ref.TooBigToTry(s, maxBits) {
		return &expr{S: s, Note: "soup"}
	}
	return &expr{S: strings.ReplaceAll(b.String(), "^", "*"), Note: "soup"}
}

func enumOperands(e *pbt.Enum, lits []string, n int) {
	ops := "+-*/^"
	var rec func(s string, k int) bool
	rec = func(s string, k int) bool {
		if k == 2 && !e.Mine() {
			return true
		}
		if k == n {
			return e.Do(&expr{S: s})
		}
		for i := 0; i < len(ops); i++ {
			for _, l := range lits {
				if !rec(s+string(ops[i])+l, k+1) {
					return false
				}
			}
		}
		return true
	}
	for _, l := range lits {
		if !rec(l, 1) {
			return
		}
	}
}

// ladder takes regular expressions of growing size.
func ladder(e *pbt.Enum) {
	gens.Steps(pbt.Pick(e.Tier, 130, 300), pbt.Pick(e.Tier, 600, 1025), func(n int) bool {
		do := func(s string) bool {
			return !e.Mine() || ref.TooBigToTry(s, maxBits) || e.Do(&expr{S: s, Note: "ladder"})
		}
		pad := strings.Repeat(" ", n)
		digits := strings.Repeat("9876543210", n/10+1)[:n]
		all := []string{
			"1" + strings.Repeat("+1", n), "1" + strings.Repeat("-1", n), "1" + strings.Repeat("*3", n),
			"1" + strings.Repeat("--1", n), digits + strings.Repeat("/7", n), "2" + strings.Repeat("^1", n),
			"2*3" + strings.Repeat("+2*3", n), "2^2" + strings.Repeat("*2^2", n/4), "7" + strings.Repeat("+7/2-1", n),
			digits, "-" + digits, digits + "*" + digits, digits + "+-" + digits, digits + "/" + digits[:n/2+1],
			"0x" + strings.Repeat("fedcba98", n/8+1)[:n], "0b1" + strings.Repeat("10", n), "-0x" + strings.Repeat("f", n) + "/3",
			strings.Repeat("0", n), "0x" + strings.Repeat("0", n) + "1", "0b" + strings.Repeat("0", n),
			pad + "1" + pad + "+" + pad + "2" + pad,
			"1+", "1" + strings.Repeat("+1", n) + "+", strings.Repeat("-", n) + "1", strings.Repeat("1 ", n) + "1",
		}
		for _, s := range []string{"2^%d", "2^%d-1", "2^%d+1", "-2^%d", "3^%d", "-1^%d", "0^%d", "1^%d", "2^%d/2^64", "2^%d-2^%d/3", "10^%d-1", "%d", "-%d*-%d"} {
			all = append(all, strings.ReplaceAll(s, "%d", fmt.Sprint(n)))
		}
		for _, s := range all {
			if !do(s) {
				return false
			}
		}
		return true
	})
}

// long is an expression with one size around 2^8 to 2^16: operators, digits, spaces or
// an exponent.
type long struct {
	F int `json:"f"`
	N int `json:"n"`
}

var longForms = []func(n int) string{
	func(n int) string { return "1" + strings.Repeat("+1", n) },
	func(n int) string { return "1" + strings.Repeat(" - 3", n) },
	func(n int) string { return "5" + strings.Repeat("*-1", n) },
	func(n int) string { return "2" + strings.Repeat("^1", n) },
	func(n int) string { return strings.Repeat("2*3+", n) + "1" },
	func(n int) string { return strings.Repeat("7/2-", n) + "1" },
	func(n int) string { return strings.Repeat("2^2*3-", n) + "1" },
	func(n int) string { return "9" + strings.Repeat("876543210", n/9+1)[:n-1] },
	func(n int) string { return "0x" + strings.Repeat("fedcba98", n/8+1)[:n] },
	func(n int) string { return "-0b1" + strings.Repeat("10", n/2) },
	func(n int) string { return "0x" + strings.Repeat("0", n) + "1f" },
	func(n int) string { return "0b" + strings.Repeat("0", n) + "101+1" },
	func(n int) string { pad := strings.Repeat(" ", n); return pad + "1" + pad + "+" + pad + "2" + pad },
	func(n int) string { return fmt.Sprintf("2^%d-1", n) },
	func(n int) string { return fmt.Sprintf("-2^%d/3", n) },
	func(n int) string { return fmt.Sprintf("3^%d", n/2) },
	func(n int) string { return fmt.Sprintf("2^%d/2^%d", n, n-3) },
	func(n int) string { return fmt.Sprintf("-1^%d+0^%d+1^%d", n, n, n) },
	func(n int) string { return fmt.Sprintf("%d*%d-%d", n, n, n) },
	func(n int) string { return fmt.Sprintf("2^-%d", n) },
	func(n int) string { return strings.Repeat("1+", n) },
	func(n int) string { return strings.Repeat("1+", n) + "*1" },
	func(n int) string { return strings.Repeat("1+", n) + "1 1" },
	func(n int) string { return strings.Repeat("-", n) + "1" },
	func(n int) string { return strings.Repeat("7", n) + "a" },
	func(n int) string { return strings.Repeat("1*", n) + "0x" },
	func(n int) string { return "1" + strings.Repeat(" ", n) + "1" },
}

func (c *long) Check(r *pbt.Rec) error {
	if c.F < 0 || c.F >= len(longForms) || c.N < 8 || c.N > 1<<18 {
		return pbt.ErrInvalid
	}
	s := longForms[c.F](c.N)
	short := func(s string) string {
		if len(s) > 200 {
			s = s[:100] + "..." + s[len(s)-100:]
		}
		return s
	}
	want, err := ref.Calc(s, 1<<20)
	got, gotErr := calc.Eval(s)
	r.NonTrivial()
	switch {
	case errors.Is(err, ref.ErrMalformed):
		r.Class("malformed")
		if gotErr == nil {
			return fmt.Errorf("Eval(%q) of %d characters = %s, want an error", short(s), len(s), short(fmt.Sprint(got)))
		}
		return nil
	case err != nil:
		return err
	case gotErr != nil:
		return fmt.Errorf("Eval(%q) of %d characters: %s", short(s), len(s), short(gotErr.Error()))
	case got == nil || got.Cmp(want) != 0:
		return fmt.Errorf("Eval(%q) of %d characters = %s, want %s", short(s), len(s), short(fmt.Sprint(got)), short(want.String()))
	}
	return nil
}

func (c *long) Shrinks() []pbt.Case {
	return []pbt.Case{&long{c.F, c.N / 2}, &long{c.F, c.N - c.N/8}, &long{c.F, c.N - 1}}
}

func main() {
	pbt.Main(&pbt.Spec{
		ID:   "C13",
		Rule: "A case is an expression text; it is non-trivial when it is well formed with at least two operators, or malformed with at least two characters. Oracle: a precedence-climbing evaluator written from the property (exact value, or an error for malformed texts); `addchain search` must report the same value.",
		Assumptions: []string{
			"Values and powers beyond 30000 bits (100000 for the regular long expressions), divisions by zero, decimal literals with superfluous leading zeros and literal forms the property does not mention (upper-case hex) are left open.",
		},
		Kinds: map[string]func() pbt.Case{"long": func() pbt.Case { return &long{} }, "expr": func() pbt.Case { return &expr{} }},
		Sections: []pbt.Section{
			{Name: "two-operands", Enum: func(e *pbt.Enum) {
				var lits []string
				for v := -12; v <= 12; v++ {
					lits = append(lits, fmt.Sprint(v))
				}
				lits = append(lits, "-0", "0x0", "0x10", "-0xa", "0b101", "-0b11", "0x00f", "0b0001", "64", "100", "-100", "255")
				enumOperands(e, lits, 2)
			}},
			{Name: "three-operands", Enum: func(e *pbt.Enum) {
				enumOperands(e, []string{"-7", "-2", "-1", "0", "1", "2", "3", "0x10", "-0b11"}, 3)
			}},
			{Name: "four-operands", Enum: func(e *pbt.Enum) {
				enumOperands(e, []string{"-3", "0", "1", "2", "7"}, 4)
			}},
			{Name: "five-operands", Enum: func(e *pbt.Enum) {
				enumOperands(e, pbt.Pick(e.Tier, []string{"2", "-3"}, []string{"2", "-3", "1", "5"}), 5)
			}},
			{Name: "short-texts", Enum: func(e *pbt.Enum) {
				alphabet := "012-+*/^ xb9a(_"
				for n := 0; n <= pbt.Pick(e.Tier, 5, 6); n++ {
					s := make([]byte, n)
					var rec func(k int) bool
					rec = func(k int) bool {
						if k == n {
							if ref.TooBigToTry(string(s), maxBits) {
								return true
							}
							return e.Do(&expr{S: string(s)})
						}
						if k == min(2, n-1) && !e.Mine() {
							return true
						}
						for _, c := range []byte(alphabet) {
							s[k] = c
							if !rec(k + 1) {
								return false
							}
						}
						return true
					}
					if n == 0 && !e.Mine() {
						continue
					}
					if !rec(0) {
						return
					}
				}
			}},
			{Name: "ladder", Enum: ladder},
			{Name: "long", CaseCPU: 300, Enum: func(e *pbt.Enum) {
				sizes := []int{255, 256, 257, 1000, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 70000}
				for _, n := range sizes {
					for f := range longForms {
						if e.Mine() && !e.Do(&long{f, n}) {
							return
						}
					}
				}
				if e.Tier == pbt.Thorough {
					for n := 258; n < 5000; n++ {
						for f := range longForms {
							if e.Mine() && !e.Do(&long{f, n}) {
								return
							}
						}
					}
				}
			}},
			{Name: "random-expressions", Fuzz: 90, N: 240000, Gen: genWell(8)},
			{Name: "long-expressions", N: 24000, Gen: genWell(60)},
			{Name: "mutated", Fuzz: 90, N: 160000, Gen: genMalformed},
			{Name: "token-soup", Fuzz: 90, N: 80000, Gen: genSoup, Seconds: 30},
			{Name: "search-report", N: 3000, Gen: genCLI},
		},
	})
}
