package ref

import (
	"fmt"
	"math/big"
)

// RegInstr is an instruction over named registers: K is "+", "d" or "s".
type RegInstr struct {
	K    string `json:"k"`
	Out  string `json:"out"`
	X    string `json:"x"`
	Y    string `json:"y,omitempty"`
	S    uint64 `json:"s,omitempty"`
	Line string `json:"-"`
}

// RunRegisters executes the instructions literally on a machine whose input
// register holds 1. With alias set, the output name denotes the input register.
// It fails on reads of registers that were never written and on writes to the
// input name. It returns the value in the output register.
func RunRegisters(ins []RegInstr, input, output string, temps []string, alias bool) (*big.Int, error) {
	cell := map[string]int{input: 0}
	if alias {
		cell[output] = 0
	} else {
		cell[output] = 1
	}
	for i, t := range temps {
		if _, dup := cell[t]; dup {
			return nil, fmt.Errorf("temporary %q clashes with another name", t)
		}
		cell[t] = 2 + i
	}
	mem := make([]*big.Int, 2+len(temps))
	mem[0] = big.NewInt(1)
	read := func(n string) (*big.Int, error) {
		c, ok := cell[n]
		if !ok {
			return nil, fmt.Errorf("undeclared register %q", n)
		}
		if mem[c] == nil {
			return nil, fmt.Errorf("register %q read before it is written", n)
		}
		return mem[c], nil
	}
	for k, in := range ins {
		x, err := read(in.X)
		if err != nil {
			return nil, fmt.Errorf("instruction %d: %v", k, err)
		}
		var z *big.Int
		switch in.K {
		case "+":
			y, err := read(in.Y)
			if err != nil {
				return nil, fmt.Errorf("instruction %d: %v", k, err)
			}
			z = new(big.Int).Add(x, y)
		case "d":
			z = new(big.Int).Lsh(x, 1)
		case "s":
			z = new(big.Int).Lsh(x, uint(in.S))
		default:
			return nil, fmt.Errorf("instruction %d: kind %q", k, in.K)
		}
		if in.Out == input {
			return nil, fmt.Errorf("instruction %d writes the input %q", k, input)
		}
		c, ok := cell[in.Out]
		if !ok {
			return nil, fmt.Errorf("instruction %d writes undeclared register %q", k, in.Out)
		}
		mem[c] = z
	}
	return read(output)
}

// ValInstr is an instruction over element indexes.
type ValInstr struct {
	K   string `json:"k"`
	Out int    `json:"o"`
	X   int    `json:"x"`
	Y   int    `json:"y,omitempty"`
	S   uint   `json:"s,omitempty"`
}

// Inputs of the instruction.
func (v ValInstr) Inputs() []int {
	if v.K == "+" {
		return []int{v.X, v.Y}
	}
	return []int{v.X}
}

// RunValues evaluates instructions over element indexes and returns the value of
// each element that is written.
func RunValues(ins []ValInstr) (map[int]*big.Int, error) {
	val := map[int]*big.Int{0: big.NewInt(1)}
	for k, in := range ins {
		x := val[in.X]
		if x == nil {
			return nil, fmt.Errorf("instruction %d reads element %d, which nothing produces", k, in.X)
		}
		var z *big.Int
		switch in.K {
		case "+":
			y := val[in.Y]
			if y == nil {
				return nil, fmt.Errorf("instruction %d reads element %d, which nothing produces", k, in.Y)
			}
			z = new(big.Int).Add(x, y)
		case "d":
			z = new(big.Int).Lsh(x, 1)
		case "s":
			z = new(big.Int).Lsh(x, in.S)
		default:
			return nil, fmt.Errorf("bad kind %q", in.K)
		}
		val[in.Out] = z
	}
	return val, nil
}

// ExpandValues lists the additions that instructions stand for, in order. Output
// indexes must be consecutive in the sense that each instruction's last addition
// is its output.
func ExpandValues(ins []ValInstr) ([]Op, error) {
	var ops []Op
	for k, in := range ins {
		switch in.K {
		case "+":
			ops = append(ops, Op{in.X, in.Y})
		case "d":
			ops = append(ops, Op{in.X, in.X})
		case "s":
			x := in.X
			for i := uint(0); i < in.S; i++ {
				ops = append(ops, Op{x, x})
				x = len(ops)
			}
		default:
			return nil, fmt.Errorf("bad kind %q", in.K)
		}
		if in.Out != len(ops) {
			return nil, fmt.Errorf("instruction %d outputs element %d, but its result is element %d", k, in.Out, len(ops))
		}
	}
	return ops, nil
}

// Live computes, for every point before, between and after instructions, the set
// of elements live there: defined (element 0 at entry, others after their
// instruction) and read by a later instruction; the last output is live at exit.
// Point k is just before instruction k.
func Live(ins []ValInstr) []map[int]bool {
	n := len(ins)
	pts := make([]map[int]bool, n+1)
	live := map[int]bool{}
	if n > 0 {
		live[ins[n-1].Out] = true
	}
	cp := func() map[int]bool {
		m := map[int]bool{}
		for k := range live {
			m[k] = true
		}
		return m
	}
	pts[n] = cp()
	for k := n - 1; k >= 0; k-- {
		delete(live, ins[k].Out)
		for _, i := range ins[k].Inputs() {
			live[i] = true
		}
		pts[k] = cp()
	}
	return pts
}

// Peak is the largest number of values live between two instructions, the input
// counted while it is live.
func Peak(ins []ValInstr) int {
	n := len(ins)
	if n == 0 {
		return 0
	}
	live := map[int]bool{ins[n-1].Out: true}
	peak := 1
	for k := n - 1; k >= 0; k-- {
		delete(live, ins[k].Out)
		for _, i := range ins[k].Inputs() {
			live[i] = true
		}
		peak = max(peak, len(live))
	}
	return peak
}
