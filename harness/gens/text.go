package gens

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/mmcloughlin/addchain/verif/ref"
	"pgregory.net/rapid"
)

// ScriptOpts controls random scripts.
type ScriptOpts struct {
	MaxStmts int
	MaxDepth int
	MaxShift int
	// MaxOps bounds the chain length (approximately).
	MaxOps int
	// Illegal is the chance in 1/256 per leaf or statement of something illegal.
	Illegal int
	// Index is the chance in 1/256 of an index operand rather than a name.
	Index int
	// Dangling allows index operands that are intermediates of shifts.
	Dangling bool
	// Names is the pool style: 0 plain, 1 generated-looking, 2 keyword look-alikes.
	Names int
}

var plainNames = []string{"a", "b", "c", "x", "y", "z", "foo", "bar", "A", "_", "a1", "x_2", "longer_name_of_a_value"}
var genNames = []string{"_1", "_10", "_11", "_100", "x2", "x3", "x4", "x10", "i1", "i2", "i3", "i10", "t0", "t1", "z", "x", "_0"}
var keyNames = []string{"dbl", "dblx", "dbl1", "dbl0", "dbl2", "dbl_", "add", "addx", "add1", "shl", "shl2", "shlx", "return", "returnx", "return1", "_2", "e2", "x0", "Dbl", "RETURN", "d", "ad", "sh", "retur"}

// Script draws a script: mostly one that evaluates, by tracking the chain's length.
func Script(t *rapid.T, o ScriptOpts) ref.Script {
	pool := plainNames
	switch o.Names {
	case 1:
		pool = genNames
	case 2:
		pool = keyNames
	}
	chance := func(k int) bool { return k > 0 && Uni(t, "chance", 0, 255) < k }
	n := 1           // chain length
	outs := []int{0} // outputs of instructions
	type def struct {
		name string
		idx  int
	}
	var defs []def
	var expr func(depth int) (*ref.Expr, int)
	leaf := func() (*ref.Expr, int) {
		if chance(o.Illegal) {
			switch Uni(t, "bad", 0, 2) {
			case 0:
				return ref.Id(Pick(t, "undefined", pool...)), 0
			case 1:
				i := n + Int(t, "beyond", 0, 3)
				return ref.Opd(uint64(i)), 0
			case 2:
				return ref.Opd(Pick(t, "huge", uint64(1)<<31, 1<<32, 1<<62, 1<<63, 1<<63+1, ^uint64(0))), 0
			}
		}
		if len(defs) > 0 && !chance(o.Index) {
			d := defs[len(defs)-1-Int(t, "def", 0, len(defs)-1)]
			return ref.Id(d.name), d.idx
		}
		if rapid.Bool().Draw(t, "one") {
			return ref.Opd(0), 0
		}
		if o.Dangling && rapid.Bool().Draw(t, "any") {
			i := Uni(t, "idx", 0, n-1)
			return ref.Opd(uint64(i)), i
		}
		i := outs[Uni(t, "out", 0, len(outs)-1)]
		return ref.Opd(uint64(i)), i
	}
	expr = func(depth int) (*ref.Expr, int) {
		if depth <= 0 || n > o.MaxOps {
			return leaf()
		}
		switch Uni(t, "node", 0, 7) {
		case 0:
			return leaf()
		case 1, 2, 3:
			x, _ := expr(depth - 1)
			y, _ := expr(depth - 1 - Uni(t, "less", 0, 2))
			n++
			outs = append(outs, n-1)
			return ref.Add(x, y), n - 1
		case 4, 5:
			x, _ := expr(depth - 1)
			n++
			outs = append(outs, n-1)
			return ref.Dbl(x), n - 1
		default:
			x, _ := expr(depth - 1)
			s := Int(t, "s", 1, o.MaxShift)
			if chance(o.Illegal / 2) {
				s = 0
			}
			n += s
			outs = append(outs, n-1)
			return ref.Shl(x, uint64(s)), n - 1
		}
	}
	var s ref.Script
	used := map[string]bool{}
	k := Int(t, "stmts", 0, o.MaxStmts)
	if rapid.Bool().Draw(t, "more") {
		k = Uni(t, "stmts2", k, o.MaxStmts)
	}
	for i := 0; i < k; i++ {
		e, idx := expr(Int(t, "depth", 0, o.MaxDepth))
		name := Pick(t, "name", pool...)
		if used[name] && !chance(o.Illegal) {
			name = fmt.Sprintf("%s%d", name, i)
			if used[name] {
				continue
			}
		}
		used[name] = true
		s = append(s, ref.Stmt{Name: name, Expr: e})
		defs = append(defs, def{name, idx})
	}
	e, _ := expr(Int(t, "depth", 0, o.MaxDepth))
	return append(s, ref.Stmt{Expr: e})
}

// Tree draws an expression tree with at most the given depth over operands and
// identifiers, legal or not in context.
func Tree(t *rapid.T, depth int, leaf func() *ref.Expr) *ref.Expr {
	if depth <= 0 || Uni(t, "leaf", 0, 7) == 0 {
		return leaf()
	}
	switch Uni(t, "node", 0, 3) {
	case 0, 1:
		return ref.Add(Tree(t, depth-1, leaf), Tree(t, depth-1-Uni(t, "less", 0, 2), leaf))
	case 2:
		return ref.Dbl(Tree(t, depth-1, leaf))
	}
	s := uint64(Int(t, "s", 0, 9))
	if Uni(t, "bigs", 0, 15) == 0 {
		s = Pick(t, "bigshift", uint64(10), 64, 255, 1000, 1<<31, 1<<32, 1<<63, ^uint64(0))
	}
	return ref.Shl(Tree(t, depth-1, leaf), s)
}

// Render writes a script with random spelling. wild also omits needed parentheses
// and separators now and then.
func Render(t *rapid.T, s ref.Script, wild bool) string {
	c := func(n int) int { return Uni(t, "sp", 0, n-1) }
	rr := &renderer{c: c, wild: wild, spread: c(3)}
	for i, st := range s {
		rr.ws()
		if i < len(s)-1 || st.Name != "" {
			rr.b.WriteString(st.Name)
			rr.ws()
			rr.b.WriteString("=")
			rr.ws()
			rr.expr(st.Expr, 0)
			rr.ws()
			rr.b.WriteString("\n")
			continue
		}
		if c(3) > 0 {
			rr.b.WriteString("return")
			rr.b.WriteString([]string{" ", "  ", "\t", "\t\t", " \r"}[c(5)])
		}
		rr.expr(st.Expr, 0)
		rr.ws()
		if c(3) > 0 {
			rr.b.WriteString("\n")
			if c(8) == 0 {
				rr.ws()
			}
		}
	}
	return rr.b.String()
}

type renderer struct {
	b      strings.Builder
	c      func(int) int
	wild   bool
	spread int
}

func (r *renderer) ws() {
	switch r.spread {
	case 0:
		return
	case 1:
		if r.c(2) == 0 {
			r.b.WriteString(" ")
		}
	default:
		r.b.WriteString([]string{"", "", " ", "  ", "\t", "\r", " \t "}[r.c(7)])
	}
}

// Uint spells a number.
func (r *renderer) uint(u uint64) {
	switch r.c(6) {
	case 0:
		fmt.Fprintf(&r.b, "0x%x", u)
	case 1:
		switch r.c(3) {
		case 0:
			fmt.Fprintf(&r.b, "0x%X", u)
		case 1:
			fmt.Fprintf(&r.b, "0x00%x", u)
		default:
			fmt.Fprintf(&r.b, "0%o", u)
		}
	default:
		r.b.WriteString(strconv.FormatUint(u, 10))
	}
}

func (r *renderer) expr(e *ref.Expr, level int) {
	my := map[string]int{"+": 0, "s": 1, "d": 1}[e.K]
	if e.K == "o" || e.K == "i" {
		my = 2
	}
	paren := my < level
	if paren && r.wild && r.c(24) == 0 {
		paren = false
	}
	if !paren && r.c(10) == 0 {
		paren = true
	}
	if paren {
		r.b.WriteString("(")
		r.ws()
	}
	switch e.K {
	case "o":
		if e.Idx == 0 && r.c(4) > 0 {
			r.b.WriteString("1")
			break
		}
		r.b.WriteString("[")
		r.ws()
		r.uint(e.Idx)
		r.ws()
		r.b.WriteString("]")
	case "i":
		r.b.WriteString(e.Name)
	case "+":
		r.expr(e.X, 0)
		if r.c(4) > 0 {
			r.ws()
			r.b.WriteString("+")
			r.ws()
		} else {
			r.word("add")
		}
		r.expr(e.Y, 1)
	case "d":
		if r.c(3) > 0 {
			r.b.WriteString("2")
			r.ws()
			r.b.WriteString("*")
			r.ws()
		} else {
			r.b.WriteString("dbl")
			if r.c(6) > 0 {
				r.b.WriteString(" ")
			}
		}
		r.expr(e.X, 2)
	case "s":
		r.expr(e.X, 2)
		if r.c(4) > 0 {
			r.ws()
			r.b.WriteString("<<")
			r.ws()
		} else {
			r.word("shl")
		}
		r.uint(e.S)
	}
	if paren {
		r.ws()
		r.b.WriteString(")")
	}
}

func (r *renderer) word(w string) {
	if r.wild && r.c(10) == 0 {
		r.b.WriteString(w)
		return
	}
	r.b.WriteString(" ")
	r.b.WriteString(w)
	if r.c(4) > 0 {
		r.b.WriteString(" ")
	}
}

// Tokens of the script language.
var Tokens = []string{"a", "b", "=", "1", "2", "*", "+", "<<", "[", "]", "(", ")", "\n", " ", "0", "3", "return", "dbl", "add", "shl", "0x1f", "07", "08", "_", "<", "return ", "\t", "\r", "x10", "a = 1 + 1\n", "[1]", "2*", "18446744073709551616", "9223372036854775808", "0x", ",", "#", "é", "\x00", "\xff", "-", "."}

// Mutate edits a text: tokens inserted, bytes deleted, chunks copied or replaced.
func Mutate(t *rapid.T, s string) string {
	for i, n := 0, Int(t, "edits", 1, 4); i < n; i++ {
		p := Uni(t, "pos", 0, len(s))
		switch Uni(t, "edit", 0, 5) {
		case 0, 1:
			s = s[:p] + Pick(t, "tok", Tokens...) + s[p:]
		case 2:
			q := min(len(s), p+Int(t, "len", 1, 6))
			s = s[:p] + s[q:]
		case 3:
			if p < len(s) {
				s = s[:p] + s[p+1:]
			}
		case 4:
			q := min(len(s), p+Int(t, "len", 1, 20))
			r := Uni(t, "to", 0, len(s))
			s = s[:r] + s[p:q] + s[r:]
		case 5:
			if p < len(s) {
				s = s[:p] + Pick(t, "tok", Tokens...) + s[p+1:]
			}
		}
	}
	return s
}

// TokenSoup draws a random token sequence.
func TokenSoup(t *rapid.T, maxLen int) string {
	var b strings.Builder
	for i, n := 0, Int(t, "n", 0, maxLen); i < n; i++ {
		b.WriteString(Pick(t, "tok", Tokens...))
	}
	return b.String()
}

// ShrinkText proposes shorter texts.
func ShrinkText(s string) []string {
	var out []string
	n := len(s)
	for size := n / 2; size >= 1; size /= 2 {
		for p := 0; p+size <= n; p += size {
			out = append(out, s[:p]+s[p+size:])
		}
	}
	return out
}

// NamedScript draws a script for the given operations whose names are partly ones that
// the tool itself generates, for the right values or for others.
func NamedScript(t *rapid.T, ops []ref.Op) ref.Script {
	vals, err := ref.Eval(ops)
	if err != nil {
		return nil
	}
	var s ref.Script
	names := map[int]string{}
	used := map[string]bool{}
	var pending *ref.Expr // the expression of element pend, not in a statement
	pend := -1
	operand := func(i int) *ref.Expr {
		switch {
		case i == pend:
			return pending
		case i > 0 && names[i] != "" && Uni(t, "byname", 0, 3) > 0:
			return ref.Id(names[i])
		}
		return ref.Opd(uint64(i))
	}
	name := func(out int) string {
		for tries := 0; ; tries++ {
			n := fmt.Sprintf("v%d", out)
			if tries < 4 {
				v := out
				if Uni(t, "right", 0, 2) > 0 {
					v = Uni(t, "of", 0, len(ops))
				}
				switch Uni(t, "form", 0, 6) {
				case 0, 1:
					if vals[v].BitLen() <= 12 {
						n = "_" + vals[v].Text(2)
					}
				case 2:
					n = fmt.Sprintf("x%d", vals[v].BitLen())
				case 3, 4:
					n = fmt.Sprintf("i%d", v)
				case 5:
					n = Pick(t, "plain", plainNames...)
				case 6:
					n = fmt.Sprintf("i%d_", v)
				}
			}
			if !used[n] {
				used[n] = true
				return n
			}
		}
	}
	for k := 0; k < len(ops); {
		o := ops[k]
		out := k + 1
		var e *ref.Expr
		switch {
		case o.I == o.J && (o.I == pend || Uni(t, "dbl", 0, 3) > 0):
			n := 1
			for k+n < len(ops) && ops[k+n].I == k+n && ops[k+n].J == k+n && Uni(t, "more", 0, 3) > 0 {
				n++
			}
			e = ref.Dbl(operand(o.I))
			if n > 1 || Uni(t, "shift1", 0, 3) == 0 {
				e = ref.Shl(operand(o.I), uint64(n))
			}
			out = k + n
		default:
			e = ref.Add(operand(o.I), operand(o.J))
		}
		k = out
		pending, pend = nil, -1
		if k < len(ops) && (ops[k].I == k || ops[k].J == k) && Uni(t, "inline", 0, 2) > 0 {
			pending, pend = e, k
			continue
		}
		st := ref.Stmt{Expr: e}
		if k < len(ops) {
			names[k] = name(k)
			st.Name = names[k]
		}
		s = append(s, st)
	}
	if len(ops) == 0 {
		s = append(s, ref.Stmt{Expr: ref.Opd(0)})
	}
	return s
}
