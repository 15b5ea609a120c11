package ref

import (
	"errors"
	"math/big"
	"strings"
)

// Calc errors.
var (
	ErrMalformed = errors.New("malformed expression")
	ErrDivZero   = errors.New("division by zero")
	ErrTooBig    = errors.New("value exceeds the bound")
)

// Calc evaluates an expression by precedence climbing: ^ binds tightest and is
// right associative, then * and /, then + and -, left associative; division is
// Euclidean; a negative exponent yields 1. Values beyond maxBits give ErrTooBig.
func Calc(expr string, maxBits int) (*big.Int, error) {
	p := &calc{s: expr, max: maxBits}
	x, err := p.sum()
	if err != nil {
		return nil, err
	}
	p.sp()
	if p.i != len(p.s) {
		return nil, ErrMalformed
	}
	return x, nil
}

type calc struct {
	s   string
	i   int
	max int
	// divzero is remembered: the text may still turn out to be malformed.
	err error
}

func (p *calc) sp() {
	for p.i < len(p.s) && p.s[p.i] == ' ' {
		p.i++
	}
}

func (p *calc) peek() byte {
	p.sp()
	if p.i < len(p.s) {
		return p.s[p.i]
	}
	return 0
}

func (p *calc) sum() (*big.Int, error) {
	x, err := p.product()
	if err != nil {
		return nil, err
	}
	for {
		c := p.peek()
		if c != '+' && c != '-' {
			return x, nil
		}
		p.i++
		y, err := p.product()
		if err != nil {
			return nil, err
		}
		if c == '+' {
			x = new(big.Int).Add(x, y)
		} else {
			x = new(big.Int).Sub(x, y)
		}
	}
}

func (p *calc) product() (*big.Int, error) {
	x, err := p.power()
	if err != nil {
		return nil, err
	}
	for {
		c := p.peek()
		if c != '*' && c != '/' {
			return x, nil
		}
		p.i++
		y, err := p.power()
		if err != nil {
			return nil, err
		}
		if c == '*' {
			if x.BitLen()+y.BitLen() > p.max {
				return nil, ErrTooBig
			}
			x = new(big.Int).Mul(x, y)
		} else {
			if y.Sign() == 0 {
				return nil, ErrDivZero
			}
			x = eucl(x, y)
		}
	}
}

// eucl is the quotient q with x = q*y + r and 0 <= r < |y|.
func eucl(x, y *big.Int) *big.Int {
	q, r := new(big.Int).QuoRem(x, y, new(big.Int)) // truncated
	if r.Sign() < 0 {
		if y.Sign() > 0 {
			q.Sub(q, One)
		} else {
			q.Add(q, One)
		}
	}
	return q
}

func (p *calc) power() (*big.Int, error) {
	x, err := p.number()
	if err != nil {
		return nil, err
	}
	if p.peek() != '^' {
		return x, nil
	}
	p.i++
	y, err := p.power()
	if err != nil {
		return nil, err
	}
	return pow(x, y, p.max)
}

func pow(x, y *big.Int, max int) (*big.Int, error) {
	if y.Sign() <= 0 {
		return big.NewInt(1), nil
	}
	odd := y.Bit(0) == 1
	if x.CmpAbs(One) <= 0 { // -1, 0, 1
		if odd {
			return new(big.Int).Set(x), nil
		}
		return new(big.Int).Abs(x), nil
	}
	if !y.IsInt64() || y.Int64() > int64(max) || int64(x.BitLen()-1)*y.Int64() > int64(max) {
		return nil, ErrTooBig
	}
	// Repeated squaring from the top bit.
	r := big.NewInt(1)
	for i := y.BitLen() - 1; i >= 0; i-- {
		r = new(big.Int).Mul(r, r)
		if y.Bit(i) == 1 {
			r = r.Mul(r, x)
		}
	}
	return r, nil
}

func (p *calc) number() (*big.Int, error) {
	p.sp()
	neg := false
	if p.i < len(p.s) && p.s[p.i] == '-' {
		neg = true
		p.i++
	}
	rest := p.s[p.i:]
	base := 10
	if len(rest) >= 2 && rest[0] == '0' && rest[1] == 'x' {
		base = 16
		p.i += 2
	} else if len(rest) >= 2 && rest[0] == '0' && rest[1] == 'b' {
		base = 2
		p.i += 2
	}
	x := new(big.Int)
	n := 0
	start := p.i
	for p.i < len(p.s) {
		c := p.s[p.i]
		d := -1
		switch {
		case c >= '0' && c <= '9':
			d = int(c - '0')
		case c >= 'a' && c <= 'f':
			d = int(c-'a') + 10
		}
		if d < 0 || d >= base {
			break
		}
		n++
		p.i++
	}
	if n == 0 {
		return nil, ErrMalformed
	}
	digits := p.s[start:p.i]
	if base == 10 && len(digits) > 1 && digits[0] == '0' {
		return nil, ErrLeadingZero
	}
	for k := 0; k < len(digits); k++ {
		c := digits[k]
		d := int64(c - '0')
		if c >= 'a' {
			d = int64(c-'a') + 10
		}
		x.Mul(x, big.NewInt(int64(base)))
		x.Add(x, big.NewInt(d))
	}
	if x.BitLen() > p.max {
		return nil, ErrTooBig
	}
	if neg {
		x.Neg(x)
	}
	return x, nil
}

// ErrLeadingZero marks decimal literals with superfluous leading zeros, which
// the property leaves open.
var ErrLeadingZero = errors.New("superfluous leading zero")

// TooBigToTry holds for texts on which even a correct evaluator could meet a huge
// power before it notices that the text is malformed.
func TooBigToTry(s string, maxBits int) bool {
	carets := strings.Count(s, "^")
	if carets == 0 {
		return false
	}
	if _, err := Calc(s, maxBits); err == nil {
		return false
	}
	// Malformed or refused: bound every literal.
	maxDigits, cur := 0, 0
	big := false
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c == 'x' {
			cur++
			if c >= '4' && c <= '9' || c >= 'a' {
				big = true
			}
		} else {
			cur = 0
		}
		maxDigits = max(maxDigits, cur)
	}
	if strings.Contains(s, "0b") {
		big = true
	}
	switch carets {
	case 1:
		return maxDigits > 5
	case 2:
		return maxDigits > 1 || big
	}
	return true
}
