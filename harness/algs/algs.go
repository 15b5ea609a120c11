// Package algs describes algorithm configurations in a serialisable form.
package algs

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/mmcloughlin/addchain/alg"
	"github.com/mmcloughlin/addchain/alg/binary"
	"github.com/mmcloughlin/addchain/alg/contfrac"
	"github.com/mmcloughlin/addchain/alg/dict"
	"github.com/mmcloughlin/addchain/alg/ensemble"
	"github.com/mmcloughlin/addchain/alg/heuristic"
	"github.com/mmcloughlin/addchain/alg/opt"
)

// SeqNames lists the sequence algorithms: continued-fraction strategies and
// heuristic compositions that end in a total heuristic ("h:" names list the
// composed heuristics; one is used directly, several through UseFirst).
var SeqNames = []string{
	"cf:binary", "cf:co_binary", "cf:dichotomic", "cf:sqrt", "cf:total", "cf:dyadic", "cf:fermat",
	"h:halving,delta", "h:halving,approx", "h:halving,halving,approx", "h:(halving,halving),delta", "h:halving,(approx),delta",
	"h:delta", "h:approx", "h:(halving,delta)", "h:delta,halving", "h:approx,halving", "h:approx,delta",
}

// PartialNames are partial heuristics.
var PartialNames = []string{"h:halving", "h:halving,halving", "h:(halving)"}

// SeqMaxBits is the documented input-size range of a sequence algorithm, in bits
// of the largest value; strategies documented as "must not be used for large
// inputs" and heuristics without halving (linear in the value) are kept small.
func SeqMaxBits(name string) int {
	switch name {
	case "cf:total":
		return 5
	case "cf:dyadic":
		return 11
	case "cf:fermat":
		return 15
	case "h:delta", "h:approx", "h:delta,halving", "h:approx,halving", "h:approx,delta":
		return 10
	}
	return 1 << 20
}

func heur(name string) heuristic.Heuristic {
	parts := split(name)
	if len(parts) > 1 {
		var hs []heuristic.Heuristic
		for _, p := range parts {
			hs = append(hs, heur(p))
		}
		return heuristic.UseFirst(hs...)
	}
	p := parts[0]
	if strings.HasPrefix(p, "(") {
		var hs []heuristic.Heuristic
		for _, q := range split(p[1 : len(p)-1]) {
			hs = append(hs, heur(q))
		}
		return heuristic.UseFirst(hs...)
	}
	switch p {
	case "halving":
		return heuristic.Halving{}
	case "delta":
		return heuristic.DeltaLargest{}
	case "approx":
		return heuristic.Approximation{}
	}
	panic("heuristic " + name)
}

// split at top-level commas.
func split(s string) []string {
	var out []string
	depth, start := 0, 0
	for i, c := range s {
		switch c {
		case '(':
			depth++
		case ')':
			depth--
		case ',':
			if depth == 0 {
				out = append(out, s[start:i])
				start = i + 1
			}
		}
	}
	return append(out, s[start:])
}

// Seq builds a fresh sequence algorithm.
func Seq(name string) alg.SequenceAlgorithm {
	if h, ok := strings.CutPrefix(name, "h:"); ok {
		return heuristic.NewAlgorithm(heur(h))
	}
	return contfrac.NewAlgorithm(Strategy(name))
}

// Strategy by name.
func Strategy(name string) contfrac.Strategy {
	switch name {
	case "cf:binary":
		return contfrac.BinaryStrategy{}
	case "cf:co_binary":
		return contfrac.CoBinaryStrategy{}
	case "cf:dichotomic":
		return contfrac.DichotomicStrategy{}
	case "cf:sqrt":
		return contfrac.SqrtStrategy{}
	case "cf:total":
		return contfrac.TotalStrategy{}
	case "cf:dyadic":
		return contfrac.DyadicStrategy{}
	case "cf:fermat":
		return contfrac.FermatStrategy{}
	}
	panic("strategy " + name)
}

// Decomposer description: M is fw, sw, rl or hy.
type Decomposer struct {
	M string `json:"m"`
	K uint   `json:"k,omitempty"`
	T uint   `json:"t,omitempty"`
}

func (d Decomposer) String() string { return fmt.Sprintf("%s(K=%d,T=%d)", d.M, d.K, d.T) }

// Build the decomposer.
func (d Decomposer) Build() dict.Decomposer {
	switch d.M {
	case "fw":
		return dict.FixedWindow{K: d.K}
	case "sw":
		return dict.SlidingWindow{K: d.K}
	case "rl":
		return dict.RunLength{T: d.T}
	case "hy":
		return dict.Hybrid{K: d.K, T: d.T}
	}
	panic("decomposer " + d.M)
}

// MaxBits bounds the width of dictionary entries for an n of the given width.
func (d Decomposer) MaxBits(bits int) int {
	switch d.M {
	case "fw", "sw":
		return min(bits, int(d.K))
	case "rl":
		if d.T > 0 {
			return min(bits, int(d.T))
		}
		return bits
	}
	if d.T > 0 {
		return min(bits, max(int(d.K), int(d.T)))
	}
	return bits
}

// Config of a chain algorithm. Kind is "ens" (ensemble member number Ens), "dict",
// "runs", "seq" (sequence algorithm adapted to chains) or "rtl".
type Config struct {
	Kind string      `json:"kind"`
	Ens  int         `json:"ens,omitempty"`
	D    *Decomposer `json:"d,omitempty"`
	Seq  string      `json:"seq,omitempty"`
	Opt  bool        `json:"opt,omitempty"`
}

func (c Config) String() string {
	s := c.Kind
	switch c.Kind {
	case "ens":
		s = fmt.Sprintf("ensemble[%d]", c.Ens)
	case "dict":
		s = fmt.Sprintf("dict(%v,%s)", c.D, c.Seq)
	case "runs", "seq":
		s = c.Kind + "(" + c.Seq + ")"
	}
	if c.Opt {
		s = "opt(" + s + ")"
	}
	return s
}

// Build a fresh instance; nil if the configuration does not exist.
func (c Config) Build() alg.ChainAlgorithm {
	var a alg.ChainAlgorithm
	switch c.Kind {
	case "ens":
		as := ensemble.Ensemble()
		if len(as) == 0 {
			return nil
		}
		return as[c.Ens%len(as)]
	case "dict":
		a = dict.NewAlgorithm(c.D.Build(), Seq(c.Seq))
	case "runs":
		a = dict.NewRunsAlgorithm(Seq(c.Seq))
	case "seq":
		a = alg.AsChainAlgorithm(Seq(c.Seq))
	case "rtl":
		a = binary.RightToLeft{}
	default:
		return nil
	}
	if c.Opt {
		a = opt.Algorithm{Algorithm: a}
	}
	return a
}

// InRange reports whether n is in the documented range of the configuration.
func (c Config) InRange(n *big.Int) bool {
	switch c.Kind {
	case "dict":
		return c.D.MaxBits(n.BitLen()) <= SeqMaxBits(c.Seq)
	case "runs":
		return big.NewInt(int64(n.BitLen())).BitLen() <= SeqMaxBits(c.Seq)
	case "seq":
		return n.BitLen() <= SeqMaxBits(c.Seq)
	}
	return true
}
