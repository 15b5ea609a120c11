package ref

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"
)

// Expr is a script expression. K is one of
//
//	"o" operand (Idx), "i" identifier (Name), "+" add, "d" double, "s" shift (S).
type Expr struct {
	K    string `json:"k"`
	Idx  uint64 `json:"i,omitempty"`
	Name string `json:"n,omitempty"`
	S    uint64 `json:"s,omitempty"`
	X    *Expr  `json:"x,omitempty"`
	Y    *Expr  `json:"y,omitempty"`
}

// Constructors.
func Opd(i uint64) *Expr          { return &Expr{K: "o", Idx: i} }
func Id(n string) *Expr           { return &Expr{K: "i", Name: n} }
func Add(x, y *Expr) *Expr        { return &Expr{K: "+", X: x, Y: y} }
func Dbl(x *Expr) *Expr           { return &Expr{K: "d", X: x} }
func Shl(x *Expr, s uint64) *Expr { return &Expr{K: "s", X: x, S: s} }

// Stmt is a statement; Name is empty in the final one.
type Stmt struct {
	Name string `json:"name"`
	Expr *Expr  `json:"expr"`
}

// Script is a list of statements.
type Script []Stmt

// String renders the expression unambiguously (prefix form).
func (e *Expr) String() string {
	var b strings.Builder
	e.write(&b)
	return b.String()
}

func (e *Expr) write(b *strings.Builder) {
	switch e.K {
	case "o":
		fmt.Fprintf(b, "[%d]", e.Idx)
	case "i":
		b.WriteString(e.Name)
	case "+":
		b.WriteString("Add(")
		e.X.write(b)
		b.WriteString(",")
		e.Y.write(b)
		b.WriteString(")")
	case "d":
		b.WriteString("Double(")
		e.X.write(b)
		b.WriteString(")")
	case "s":
		b.WriteString("Shift(")
		e.X.write(b)
		fmt.Fprintf(b, ",%d)", e.S)
	}
}

// String renders a script in prefix form.
func (s Script) String() string {
	var b strings.Builder
	for _, st := range s {
		b.WriteString(st.Name)
		b.WriteString(" = ")
		st.Expr.write(&b)
		b.WriteString("\n")
	}
	return b.String()
}

// Nodes counts expression nodes.
func (e *Expr) Nodes() int {
	if e == nil {
		return 0
	}
	return 1 + e.X.Nodes() + e.Y.Nodes()
}

// Depth of an expression.
func (e *Expr) Depth() int {
	if e == nil {
		return 0
	}
	return 1 + max(e.X.Depth(), e.Y.Depth())
}

// Parse parses a script by the published grammar (acc.peg), transcribed by hand.
func Parse(src string) (s Script, err error) {
	p := &parser{s: src}
	defer func() {
		if v := recover(); v != nil {
			if e, ok := v.(litError); ok {
				s, err = nil, fmt.Errorf("bad literal %q", string(e))
				return
			}
			panic(v)
		}
	}()
	for {
		save := p.i
		st, ok := p.assignment()
		if !ok {
			p.i = save
			break
		}
		s = append(s, st)
	}
	// Return <- _ ("return" __)? Expr _ EOL?
	p.ws()
	save := p.i
	if !(p.lit("return") && p.ws() > 0) {
		p.i = save
	}
	e, ok := p.expr()
	if !ok {
		return nil, fmt.Errorf("no final expression at offset %d", p.i)
	}
	p.ws()
	p.lit("\n")
	p.ws()
	if p.i != len(p.s) {
		return nil, fmt.Errorf("junk at offset %d", p.i)
	}
	return append(s, Stmt{Expr: e}), nil
}

type litError string

type parser struct {
	s    string
	i    int
	memo map[int]memoBase
}

type memoBase struct {
	e   *Expr
	ok  bool
	end int
}

// ws consumes Whitespace* and returns the number of characters.
func (p *parser) ws() int {
	n := 0
	for p.i < len(p.s) && (p.s[p.i] == ' ' || p.s[p.i] == '\t' || p.s[p.i] == '\r') {
		p.i++
		n++
	}
	return n
}

func (p *parser) lit(t string) bool {
	if strings.HasPrefix(p.s[p.i:], t) {
		p.i += len(t)
		return true
	}
	return false
}

func (p *parser) assignment() (Stmt, bool) {
	p.ws()
	n, ok := p.ident()
	if !ok {
		return Stmt{}, false
	}
	p.ws()
	if !p.lit("=") {
		return Stmt{}, false
	}
	p.ws()
	e, ok := p.expr()
	if !ok {
		return Stmt{}, false
	}
	p.ws()
	if !p.lit("\n") {
		return Stmt{}, false
	}
	return Stmt{Name: n, Expr: e}, true
}

// expr is AddExpr <- _ ShiftExpr (_ AddOperator _ ShiftExpr)* _
func (p *parser) expr() (*Expr, bool) {
	p.ws()
	x, ok := p.shift()
	if !ok {
		return nil, false
	}
	for {
		save := p.i
		p.ws()
		if !p.lit("+") && !p.lit("add") {
			p.i = save
			break
		}
		p.ws()
		y, ok := p.shift()
		if !ok {
			p.i = save
			break
		}
		x = Add(x, y)
	}
	p.ws()
	return x, true
}

// shift is ShiftExpr <- _ BaseExpr _ ShiftOp _ Uint _ / _ DoubleOp _ BaseExpr / BaseExpr
func (p *parser) shift() (*Expr, bool) {
	start := p.i
	p.ws()
	x, okx := p.base()
	if okx {
		p.ws()
		if p.lit("<<") || p.lit("shl") {
			p.ws()
			if s, ok := p.uint(); ok {
				p.ws()
				return Shl(x, s), true
			}
		}
	}
	p.i = start
	p.ws()
	if p.doubleop() {
		p.ws()
		if y, ok := p.base(); ok {
			return Dbl(y), true
		}
	}
	p.i = start
	return p.base()
}

func (p *parser) doubleop() bool {
	save := p.i
	if p.lit("2") {
		p.ws()
		if p.lit("*") {
			return true
		}
		p.i = save
	}
	return p.lit("dbl")
}

// base memoizes primary, so that parsing is linear.
func (p *parser) base() (*Expr, bool) {
	if m, ok := p.memo[p.i]; ok {
		if m.ok {
			p.i = m.end
		}
		return m.e, m.ok
	}
	if p.memo == nil {
		p.memo = map[int]memoBase{}
	}
	start := p.i
	e, ok := p.primary()
	p.memo[start] = memoBase{e, ok, p.i}
	return e, ok
}

func (p *parser) primary() (*Expr, bool) {
	save := p.i
	if p.lit("(") {
		p.ws()
		if e, ok := p.expr(); ok {
			p.ws()
			if p.lit(")") {
				return e, true
			}
		}
		p.i = save
		return nil, false
	}
	if p.lit("1") {
		return Opd(0), true
	}
	if p.lit("[") {
		p.ws()
		if u, ok := p.uint(); ok {
			p.ws()
			if p.lit("]") {
				return Opd(u), true
			}
		}
		p.i = save
		return nil, false
	}
	if n, ok := p.ident(); ok {
		return Id(n), true
	}
	return nil, false
}

func isLetter(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_'
}

func isDigit(c byte) bool { return c >= '0' && c <= '9' }

func (p *parser) ident() (string, bool) {
	j := p.i
	if j >= len(p.s) || !isLetter(p.s[j]) {
		return "", false
	}
	for j < len(p.s) && (isLetter(p.s[j]) || isDigit(p.s[j])) {
		j++
	}
	n := p.s[p.i:j]
	p.i = j
	return n, true
}

func span(s string, i int, f func(byte) bool) int {
	for i < len(s) && f(s[i]) {
		i++
	}
	return i
}

func (p *parser) uint() (uint64, bool) {
	s, i := p.s, p.i
	ishex := func(c byte) bool { return isDigit(c) || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F' }
	isoct := func(c byte) bool { return c >= '0' && c <= '7' }
	var text string
	var v *big.Int
	ok := true
	if strings.HasPrefix(s[i:], "0x") && span(s, i+2, ishex) > i+2 {
		j := span(s, i+2, ishex)
		text = s[i:j]
		v, ok = new(big.Int).SetString(text[2:], 16)
	} else if i < len(s) && s[i] == '0' && span(s, i+1, isoct) > i+1 {
		j := span(s, i+1, isoct)
		text = s[i:j]
		v, ok = new(big.Int).SetString(text[1:], 8)
	} else if i < len(s) && isDigit(s[i]) {
		j := span(s, i, isDigit)
		text = s[i:j]
		if len(text) > 1 && text[0] == '0' {
			// "08": a leading zero denotes octal, in which 8 is no digit.
			panic(litError(text))
		}
		v, ok = new(big.Int).SetString(text, 10)
	} else {
		return 0, false
	}
	if !ok || !v.IsUint64() {
		panic(litError(text))
	}
	p.i += len(text)
	return v.Uint64(), true
}

// Instr is an instruction of the reference evaluation: one operation with the
// index of its output element.
type Instr struct {
	K    string // "+", "d", "s"
	X, Y uint64
	S    uint64
	Out  uint64
}

// Loaded is the meaning of a script.
type Loaded struct {
	Ops    []Op
	Chain  []*big.Int
	Instrs []Instr
	Result uint64 // element denoted by the final statement
	// BareMissing is set when a statement merely names an element that does not
	// exist, without operating on it.
	BareMissing bool
	// ZeroShift is set when a shift by zero occurs.
	ZeroShift bool
	// Dangling is set when an instruction reads an element that is neither the
	// first nor the output of an instruction.
	Dangling bool
}

// Load evaluates a script by the published semantics. maxOps bounds the number of
// operations; ErrTooLong is returned beyond.
func Load(s Script, maxOps int) (*Loaded, error) {
	l := &Loaded{Chain: []*big.Int{big.NewInt(1)}}
	names := map[string]uint64{}
	outputs := map[uint64]bool{0: true}
	appendOp := func(i, j uint64) {
		l.Ops = append(l.Ops, Op{int(i), int(j)})
		l.Chain = append(l.Chain, new(big.Int).Add(l.Chain[i], l.Chain[j]))
	}
	exists := func(i uint64) error {
		if i >= uint64(len(l.Chain)) {
			return fmt.Errorf("element %d has not been computed", i)
		}
		if !outputs[i] {
			l.Dangling = true
		}
		return nil
	}
	var eval func(e *Expr) (uint64, error)
	eval = func(e *Expr) (uint64, error) {
		if len(l.Ops) > maxOps {
			return 0, ErrTooLong
		}
		switch e.K {
		case "o":
			return e.Idx, nil
		case "i":
			i, ok := names[e.Name]
			if !ok {
				return 0, fmt.Errorf("undefined name %q", e.Name)
			}
			return i, nil
		case "+":
			x, err := eval(e.X)
			if err != nil {
				return 0, err
			}
			y, err := eval(e.Y)
			if err != nil {
				return 0, err
			}
			if err := exists(x); err != nil {
				return 0, err
			}
			if err := exists(y); err != nil {
				return 0, err
			}
			appendOp(x, y)
			out := uint64(len(l.Chain) - 1)
			l.Instrs = append(l.Instrs, Instr{K: "+", X: x, Y: y, Out: out})
			outputs[out] = true
			return out, nil
		case "d", "s":
			x, err := eval(e.X)
			if err != nil {
				return 0, err
			}
			if err := exists(x); err != nil {
				return 0, err
			}
			n := uint64(1)
			if e.K == "s" {
				n = e.S
			}
			if n == 0 {
				l.ZeroShift = true
				return x, nil
			}
			if n > uint64(maxOps-len(l.Ops)) {
				return 0, ErrTooLong
			}
			in := x
			for k := uint64(0); k < n; k++ {
				appendOp(x, x)
				x = uint64(len(l.Chain) - 1)
			}
			l.Instrs = append(l.Instrs, Instr{K: e.K, X: in, S: n, Out: x})
			outputs[x] = true
			return x, nil
		}
		return 0, fmt.Errorf("bad node %q", e.K)
	}
	for _, st := range s {
		i, err := eval(st.Expr)
		if err != nil {
			return nil, err
		}
		if i >= uint64(len(l.Chain)) {
			l.BareMissing = true
		}
		if _, dup := names[st.Name]; dup {
			return nil, fmt.Errorf("redefinition of %q", st.Name)
		}
		names[st.Name] = i
		l.Result = i
	}
	return l, nil
}

// ErrTooLong is returned by Load when a script needs too many operations.
var ErrTooLong = fmt.Errorf("too many operations")

// Legal reports whether n is an identifier of the language.
func Legal(n string) bool {
	p := &parser{s: n}
	m, ok := p.ident()
	return ok && m == n
}

// Uint formats an index.
func Uint(u uint64) string { return strconv.FormatUint(u, 10) }
