// Package conv converts between the repository's syntax trees and instruction
// lists and those of package ref.
package conv

import (
	"fmt"

	"github.com/mmcloughlin/addchain"
	"github.com/mmcloughlin/addchain/acc/ast"
	"github.com/mmcloughlin/addchain/acc/ir"

	"github.com/mmcloughlin/addchain/verif/ref"
)

// FromAST converts a syntax tree.
func FromAST(c *ast.Chain) (ref.Script, error) {
	if c == nil {
		return nil, fmt.Errorf("nil syntax tree")
	}
	var s ref.Script
	for _, st := range c.Statements {
		e, err := FromExpr(st.Expr)
		if err != nil {
			return nil, err
		}
		s = append(s, ref.Stmt{Name: string(st.Name), Expr: e})
	}
	return s, nil
}

// FromExpr converts an expression.
func FromExpr(e ast.Expr) (*ref.Expr, error) {
	switch e := e.(type) {
	case ast.Operand:
		return ref.Opd(uint64(uint(e))), nil
	case ast.Identifier:
		return ref.Id(string(e)), nil
	case ast.Add:
		x, err := FromExpr(e.X)
		if err != nil {
			return nil, err
		}
		y, err := FromExpr(e.Y)
		if err != nil {
			return nil, err
		}
		return ref.Add(x, y), nil
	case ast.Double:
		x, err := FromExpr(e.X)
		if err != nil {
			return nil, err
		}
		return ref.Dbl(x), nil
	case ast.Shift:
		x, err := FromExpr(e.X)
		if err != nil {
			return nil, err
		}
		return ref.Shl(x, uint64(e.S)), nil
	}
	return nil, fmt.Errorf("unexpected expression node %T", e)
}

// ToAST builds a syntax tree.
func ToAST(s ref.Script) *ast.Chain {
	c := &ast.Chain{}
	for _, st := range s {
		c.Statements = append(c.Statements, ast.Statement{Name: ast.Identifier(st.Name), Expr: ToExpr(st.Expr)})
	}
	return c
}

// ToExpr builds an expression.
func ToExpr(e *ref.Expr) ast.Expr {
	switch e.K {
	case "o":
		return ast.Operand(int(e.Idx))
	case "i":
		return ast.Identifier(e.Name)
	case "+":
		return ast.Add{X: ToExpr(e.X), Y: ToExpr(e.Y)}
	case "d":
		return ast.Double{X: ToExpr(e.X)}
	case "s":
		return ast.Shift{X: ToExpr(e.X), S: uint(e.S)}
	}
	panic("expression kind " + e.K)
}

// Program converts a list of additions.
func Program(ops []ref.Op) addchain.Program {
	p := addchain.Program{}
	for _, op := range ops {
		p = append(p, addchain.Op{I: op.I, J: op.J})
	}
	return p
}

// SameOps compares a program with a list of additions, up to operand order.
func SameOps(p addchain.Program, ops []ref.Op) error {
	if len(p) != len(ops) {
		return fmt.Errorf("%d operations, want %d: %v, want %v", len(p), len(ops), p, ops)
	}
	for i, op := range p {
		m := ops[i]
		if !(op.I == m.I && op.J == m.J || op.I == m.J && op.J == m.I) {
			return fmt.Errorf("operation %d is %v, want %v", i+1, op, m)
		}
	}
	return nil
}

// FromIR lists the instructions over element indexes.
func FromIR(p *ir.Program) ([]ref.ValInstr, error) {
	if p == nil {
		return nil, fmt.Errorf("nil program")
	}
	var out []ref.ValInstr
	for k, in := range p.Instructions {
		if in == nil || in.Output == nil {
			return nil, fmt.Errorf("instruction %d is incomplete", k)
		}
		v := ref.ValInstr{Out: in.Output.Index}
		switch op := in.Op.(type) {
		case ir.Add:
			v.K, v.X, v.Y = "+", op.X.Index, op.Y.Index
		case ir.Double:
			v.K, v.X = "d", op.X.Index
		case ir.Shift:
			v.K, v.X, v.S = "s", op.X.Index, op.S
		default:
			return nil, fmt.Errorf("instruction %d has operation %T", k, in.Op)
		}
		out = append(out, v)
	}
	return out, nil
}

// Registers lists the instructions over operand identifiers.
func Registers(p *ir.Program) ([]ref.RegInstr, error) {
	var out []ref.RegInstr
	for k, in := range p.Instructions {
		v := ref.RegInstr{Out: in.Output.Identifier}
		switch op := in.Op.(type) {
		case ir.Add:
			v.K, v.X, v.Y = "+", op.X.Identifier, op.Y.Identifier
		case ir.Double:
			v.K, v.X = "d", op.X.Identifier
		case ir.Shift:
			v.K, v.X, v.S = "s", op.X.Identifier, uint64(op.S)
		default:
			return nil, fmt.Errorf("instruction %d has operation %T", k, in.Op)
		}
		if v.Out == "" || v.X == "" || v.K == "+" && v.Y == "" {
			return nil, fmt.Errorf("instruction %d (%v) has an operand without a name", k, in)
		}
		out = append(out, v)
	}
	return out, nil
}

// Sharing modes of operand objects in ToIR.
const (
	Fresh  = 0 // one object per occurrence
	Shared = 1 // one object per index
	Mixed  = 2 // one object per index for outputs, fresh ones for some reads
)

// ToIR builds an instruction list.
func ToIR(ins []ref.ValInstr, mode int) *ir.Program {
	p := &ir.Program{}
	objs := map[int]*ir.Operand{}
	n := 0
	get := func(i int) *ir.Operand {
		n++
		if mode == Fresh || mode == Mixed && n%3 == 0 {
			return ir.Index(i)
		}
		if objs[i] == nil {
			objs[i] = ir.Index(i)
		}
		return objs[i]
	}
	for _, v := range ins {
		in := &ir.Instruction{}
		switch v.K {
		case "+":
			in.Op = ir.Add{X: get(v.X), Y: get(v.Y)}
		case "d":
			in.Op = ir.Double{X: get(v.X)}
		case "s":
			in.Op = ir.Shift{X: get(v.X), S: v.S}
		default:
			panic("instruction kind " + v.K)
		}
		in.Output = get(v.Out)
		p.AddInstruction(in)
	}
	return p
}
