// C14: the search command's report is self-consistent, minimal and reproducible.
package main

import (
	"fmt"
	"math"
	"math/big"
	"os"
	"regexp"
	"strconv"
	"strings"

	"github.com/mmcloughlin/addchain/alg/ensemble"
	"github.com/mmcloughlin/addchain/alg/exec"
	"pgregory.net/rapid"

	"github.com/mmcloughlin/addchain/verif/cli"
	"github.com/mmcloughlin/addchain/verif/gens"
	"github.com/mmcloughlin/addchain/verif/pbt"
	"github.com/mmcloughlin/addchain/verif/ref"
)

type search struct {
	Expr string `json:"expr"`
	// Costs as given on the command line; empty means the flag is left out.
	Add    string `json:"add,omitempty"`
	Double string `json:"double,omitempty"`
	// P are the concurrency settings compared with each other.
	P []string `json:"p"`
	// Files passes scripts as files instead of on standard input.
	Files bool `json:"files,omitempty"`
	// Full also compares with the algorithms run in this process.
	Full bool   `json:"full,omitempty"`
	Note string `json:"note,omitempty"`
}

var lim = cli.Limits{CPU: 400, MemMB: 8192}

func cost(s string) (float64, bool) {
	if s == "" {
		return 1, true
	}
	v, err := strconv.ParseFloat(s, 64)
	return v, err == nil && v > 0 && !math.IsInf(v, 0)
}

// close compares costs up to rounding: two products and a sum, whatever their order,
// stay within 3e-16 of the exact value. Costs that are sums of dyadic fractions
// compare exactly.
func close(a, b float64) bool {
	return a == b || math.Abs(a-b) <= 1e-15*math.Max(math.Abs(a), math.Abs(b))
}

func (c *search) args(p string, verbose bool) []string {
	a := []string{"search"}
	if verbose {
		a = append(a, "-v")
	}
	if p != "" {
		a = append(a, "-p", p)
	}
	if c.Add != "" {
		a = append(a, "-add", c.Add)
	}
	if c.Double != "" {
		a = append(a, "-double="+c.Double)
	}
	if strings.HasPrefix(c.Expr, "-") || len(c.Expr)%2 == 0 {
		a = append(a, "--")
	}
	return append(a, c.Expr)
}

var (
	costLine    = regexp.MustCompile(`(?m)\bcost: (\S+)$`)
	verboseLine = regexp.MustCompile(`(?m)\bcost: (\S+)\s+doubles:\s*(\d+)\s+adds:\s*(\d+)\s*$`)
	evalLine    = regexp.MustCompile(`(?m)^\[\s*(\d+)\]\s*(\d+)\+\s*(\d+)\s+([0-9a-f]+)$`)
	totalLine   = regexp.MustCompile(`(?m)^total:\s*(\d+)\s+doubles:\s*(\d+)\s+adds:\s*(\d+)\s*$`)
)

func (c *search) Check(r *pbt.Rec) error {
	n, err := ref.Calc(c.Expr, 4000)
	add, ok1 := cost(c.Add)
	double, ok2 := cost(c.Double)
	if err != nil || n.Sign() <= 0 || !ok1 || !ok2 || len(c.P) == 0 || cli.Bin() == "" {
		return pbt.ErrInvalid
	}
	if c.Note != "" {
		r.Class("source:%s", c.Note)
	}
	weigh := func(doubles, adds int) float64 { return double*float64(doubles) + add*float64(adds) }

	// Runs with different concurrency.
	var first cli.Result
	for i, p := range c.P {
		l := lim
		l.Procs = []int{2, 1, 8}[i%3]
		res := cli.Addchain(l, "", c.args(p, false)...)
		if err := res.Crash(); err != nil {
			return fmt.Errorf("%q %v", c.args(p, false), err)
		}
		if res.Code != 0 {
			return fmt.Errorf("%q fails: %v", c.args(p, false), res)
		}
		if i == 0 {
			first = res
			continue
		}
		if res.Stdout != first.Stdout || res.Stderr != first.Stderr {
			return fmt.Errorf("%q prints different output with -p %s and with -p %s:\n%s\n%s\n--\n%s\n%s", c.args(p, false), c.P[0], p, first.Stderr, first.Stdout, res.Stderr, res.Stdout)
		}
	}
	what := fmt.Sprintf("%q", c.args(c.P[0], false))
	script := first.Stdout
	what = fmt.Sprintf("%s prints %q", what, cli.Tail(script, 2000))

	// The script, by the reference semantics.
	tree, err := ref.Parse(script)
	if err != nil {
		return fmt.Errorf("%s: not a script: %v", what, err)
	}
	loaded, err := ref.Load(tree, 20000)
	if err != nil {
		return fmt.Errorf("%s: does not evaluate: %v", what, err)
	}
	if last := loaded.Chain[len(loaded.Chain)-1]; last.Cmp(n) != 0 {
		return fmt.Errorf("%s: the chain ends in %v, want %v", what, last, n)
	}
	doubles, adds := 0, 0
	for _, op := range loaded.Ops {
		if op.I == op.J {
			doubles++
		} else {
			adds++
		}
	}
	// The script, by the eval command.
	run := func(args ...string) (cli.Result, error) {
		in := script
		if c.Files {
			f, err := os.CreateTemp("", "verif-c14-")
			if err != nil {
				pbt.HarnessFailure(err.Error())
			}
			defer os.Remove(f.Name())
			f.WriteString(script)
			f.Close()
			args = append(args, f.Name())
			in = ""
		}
		res := cli.Addchain(lim, in, args...)
		if err := res.Crash(); err != nil {
			return res, fmt.Errorf("%s: %q %v", what, args, err)
		}
		if res.Code != 0 {
			return res, fmt.Errorf("%s: not accepted by %q: %v", what, args, res)
		}
		return res, nil
	}
	res, err := run("eval")
	if err != nil {
		return err
	}
	lines := evalLine.FindAllStringSubmatch(res.Stdout, -1)
	total := totalLine.FindAllStringSubmatch(res.Stdout, -1)
	if len(total) != 1 {
		return fmt.Errorf("%s: eval prints %q", what, cli.Tail(res.Stdout, 1000))
	}
	end := ref.One
	evalDoubles, evalAdds := 0, 0
	for _, m := range lines {
		x, ok := new(big.Int).SetString(m[4], 16)
		if !ok {
			return fmt.Errorf("%s: eval prints %q", what, m[0])
		}
		end = x
		if m[2] == m[3] {
			evalDoubles++
		} else {
			evalAdds++
		}
	}
	if end.Cmp(n) != 0 {
		return fmt.Errorf("%s: eval ends in %v, want %v", what, end, n)
	}
	if evalDoubles != doubles || evalAdds != adds {
		return fmt.Errorf("%s: eval lists %d doublings and %d additions, the script has %d and %d", what, evalDoubles, evalAdds, doubles, adds)
	}
	if t := fmt.Sprint(total[0][1:]); t != fmt.Sprint([]int{doubles + adds, doubles, adds}) {
		return fmt.Errorf("%s: eval totals %v, the script has %d doublings and %d additions", what, t, doubles, adds)
	}

	// Cost.
	m := costLine.FindAllStringSubmatch(first.Stderr, -1)
	if len(m) != 1 {
		return fmt.Errorf("%s: reports no cost: %q", what, first.Stderr)
	}
	reported, err := strconv.ParseFloat(m[0][1], 64)
	if err != nil || !close(reported, weigh(doubles, adds)) {
		return fmt.Errorf("%s: reports cost %s, want %v*%d + %v*%d = %v", what, m[0][1], double, doubles, add, adds, weigh(doubles, adds))
	}
	// Minimum over the results listed in verbose mode.
	v := cli.Addchain(lim, "", c.args(c.P[len(c.P)-1], true)...)
	if err := v.Crash(); err != nil || v.Code != 0 {
		return fmt.Errorf("%q: %v %v", c.args(c.P[len(c.P)-1], true), err, v)
	}
	if v.Stdout != script {
		return fmt.Errorf("%s, but in verbose mode %q", what, v.Stdout)
	}
	listed := verboseLine.FindAllStringSubmatch(v.Stderr, -1)
	for _, m := range listed {
		d, _ := strconv.Atoi(m[2])
		a, _ := strconv.Atoi(m[3])
		x, err := strconv.ParseFloat(m[1], 64)
		if err != nil || !close(x, weigh(d, a)) {
			return fmt.Errorf("%q lists %q, want cost %v", c.args("", true), m[0], weigh(d, a))
		}
		if x < reported && !close(x, reported) {
			return fmt.Errorf("%s: reports cost %v but lists a result of cost %v", what, reported, x)
		}
	}
	if c.Full {
		r.Class("compared with own run of the ensemble")
		best := math.Inf(1)
		var name string
		for _, a := range ensemble.Ensemble() {
			er := exec.Execute(new(big.Int).Set(n), a)
			if er.Err != nil {
				return fmt.Errorf("%v on %v: %v", a, n, er.Err)
			}
			d, s := 0, 0
			for _, op := range er.Program {
				if op.I == op.J {
					d++
				} else {
					s++
				}
			}
			if w := weigh(d, s); w < best {
				best, name = w, fmt.Sprint(a)
			}
		}
		if !close(best, reported) {
			return fmt.Errorf("%s: reports cost %v, but the best result is %v by %s", what, reported, best, name)
		}
	}

	// Accepted by the other commands.
	for _, args := range [][]string{{"fmt"}, {"fmt", "-b"}} {
		res, err := run(args...)
		if err != nil {
			return err
		}
		if strings.TrimSpace(res.Stdout) == "" {
			return fmt.Errorf("%s: %q prints nothing", what, args)
		}
	}
	if n.Cmp(ref.One) > 0 {
		for _, args := range [][]string{{"gen"}, {"gen", "-type", []string{"chain", "ops", "script", "listing"}[len(script)%4]}} {
			res, err := run(args...)
			if err != nil {
				return err
			}
			if strings.TrimSpace(res.Stdout) == "" {
				return fmt.Errorf("%s: %q prints nothing", what, args)
			}
		}
	}
	r.Evals(len(c.P))
	if doubles+adds >= 3 {
		r.NonTrivial()
	}
	if c.Add != "" || c.Double != "" {
		r.Class("with costs")
	}
	r.Class("listed results: %d", len(listed))
	return nil
}

func (c *search) Shrinks() []pbt.Case {
	var out []pbt.Case
	n, err := ref.Calc(c.Expr, 4000)
	if err != nil {
		return nil
	}
	add := func(d search) { out = append(out, &d) }
	d := *c
	d.Expr, d.Note = n.String(), ""
	if d.Expr != c.Expr {
		add(d)
	}
	for i, x := range gens.ShrinkInt(n) {
		if i > 12 {
			break
		}
		d := *c
		d.Expr = x.String()
		add(d)
	}
	if c.Add != "" {
		d := *c
		d.Add = ""
		add(d)
	}
	if c.Double != "" {
		d := *c
		d.Double = ""
		add(d)
	}
	if len(c.P) > 1 {
		d := *c
		d.P = c.P[:len(c.P)-1]
		add(d)
	}
	return out
}

// form renders n as an expression.
func form(t *rapid.T, n *big.Int) string {
	k := n.BitLen()
	two := func(e int) *big.Int { return new(big.Int).Lsh(ref.One, uint(e)) }
	sp := gens.Pick(t, "sp", "", "", " ")
	switch gens.Uni(t, "form", 0, 8) {
	case 0:
		return "0x" + n.Text(16)
	case 1:
		if k <= 130 {
			return "0b" + n.Text(2)
		}
	case 2: // 2^k - c
		return fmt.Sprintf("2^%d%s-%s%v", k, sp, sp, new(big.Int).Sub(two(k), n))
	case 3:
		return fmt.Sprintf("2^%d%s+%s0x%x", k-1, sp, sp, new(big.Int).Sub(n, two(k-1)))
	case 4: // q*d + r
		d := big.NewInt(int64(gens.Uni(t, "d", 2, 99)))
		q, r := new(big.Int).DivMod(n, d, new(big.Int))
		return fmt.Sprintf("%v%s*%s%v%s+%s%v", q, sp, sp, d, sp, sp, r)
	case 5:
		d := big.NewInt(int64(gens.Uni(t, "d", 2, 99)))
		return fmt.Sprintf("%v%s/%s%v", new(big.Int).Mul(n, d), sp, sp, d)
	case 6:
		return fmt.Sprintf("-%d%s+%s%v", 5, sp, sp, new(big.Int).Add(n, big.NewInt(5)))
	case 7:
		return " " + n.String() + " "
	}
	return n.String()
}

// costs: sums of a few hundred of these are exact except for the decimal ones.
var costs = []string{"", "", "1", "2", "0.5", "0.25", "1.5", "3", "10", "100", "1e3", "0.0078125", "1e-3", "0.1", "1.1", "0.7", "1e6", "1e-9", "1e15", "0x1p-3", "5e-324", "7e200"}

var ps = []string{"1", "2", "3", "5", "7", "8", "16", "64", "199", "200", "201", "1000", "100000"}

func gen(full bool, bits ...int) func(t *rapid.T) pbt.Case {
	return func(t *rapid.T) pbt.Case {
		n, fam := gens.Target(t, gens.Pick(t, "bits", bits...))
		c := &search{Expr: form(t, n), Add: gens.Pick(t, "add", costs...), Double: gens.Pick(t, "double", costs...), Full: full, Note: fam}
		c.P = []string{gens.Pick(t, "p1", "1", "1", "2", "8")}
		for i, k := 0, gens.Uni(t, "np", 1, 2); i < k; i++ {
			c.P = append(c.P, gens.Pick(t, "p", append([]string{""}, ps...)...))
		}
		c.Files = rapid.Bool().Draw(t, "files")
		return c
	}
}

func main() {
	pbt.Main(&pbt.Spec{
		ID:   "C14",
		Rule: "A case is a target expression, a pair of costs and two or three concurrency settings for `addchain search`; it is non-trivial when the printed script has at least three operations. Oracle: own parser and evaluator of the script (ends in n, counts), the eval command, the reported cost against the weighted counts, the minimum over the results listed by -v and over the ensemble run in the harness process, exit status of fmt, fmt -b and gen, byte equality of stdout and stderr between runs.",
		Assumptions: []string{
			"Costs are compared exactly or, where the weighted sum is not representable, up to 1e-15 relative; costs whose sums overflow a float64 are not generated.",
			"Byte equality is required of non-verbose runs; in verbose mode the order of start/done lines follows the schedule and only stdout is compared.",
		},
		Kinds: map[string]func() pbt.Case{"search": func() pbt.Case { return &search{} }},
		Sections: []pbt.Section{
			{Name: "small-values", CaseCPU: 400, Enum: func(e *pbt.Enum) {
				top := int64(pbt.Pick(e.Tier, 300, 3000))
				for n := int64(1); n <= top; n++ {
					if !e.Mine() {
						continue
					}
					c := &search{Expr: fmt.Sprint(n), P: []string{"1", ps[int(n)%len(ps)]}, Full: true}
					if n%2 == 0 {
						c.Add = costs[int(n/2)%len(costs)]
						c.Double = costs[int(n/7)%len(costs)]
					}
					if !e.Do(c) {
						return
					}
				}
			}},
			{Name: "cost-grid", CaseCPU: 400, Enum: func(e *pbt.Enum) {
				ns := []string{"1", "2", "3", "15", "127", "1023", "0xbeef", "2^16-15", "87654321"}
				if e.Tier == pbt.Thorough {
					ns = append(ns, "2^32-5", "0xdeadbeefcafef00d", "2^89-1")
				}
				for _, n := range ns {
					for i, a := range costs[1:] {
						for j, d := range costs[1:] {
							if e.Tier == pbt.Quick && (i+2*j+len(n))%5 != 0 {
								continue
							}
							if e.Mine() && !e.Do(&search{Expr: n, Add: a, Double: d, P: []string{"2"}, Full: true}) {
								return
							}
						}
					}
				}
			}},
			{Name: "random-small", N: 600, CaseCPU: 400, Gen: gen(true, 8, 12, 16, 24, 32)},
			{Name: "random-medium", N: 160, CaseCPU: 400, Gen: gen(true, 64, 65, 128)},
			{Name: "random-large", N: 16, CaseCPU: 400, Seconds: 240, Gen: gen(true, 192, 256)},
			{Name: "random-huge", N: 8, CaseCPU: 800, Seconds: 240, ThoroughOnly: true, Gen: gen(true, 384, 521)},
		},
	})
}
