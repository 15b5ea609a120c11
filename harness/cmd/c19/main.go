// C19: multi-precision helper functions meet their arithmetic specifications.
package main

import (
	"fmt"
	"math/big"
	"slices"
	"sort"
	"strings"

	"github.com/mmcloughlin/addchain/internal/bigint"
	"github.com/mmcloughlin/addchain/internal/bigints"
	"github.com/mmcloughlin/addchain/internal/bigvector"
	"pgregory.net/rapid"

	"github.com/mmcloughlin/addchain/verif/gens"
	"github.com/mmcloughlin/addchain/verif/pbt"
	"github.com/mmcloughlin/addchain/verif/ref"
)

// The oracles below compute with decimal powers of two by repeated doubling and
// with bits held in []bool, not with the shifts and masks of the code under test.

func two(n uint) *big.Int {
	return new(big.Int).Exp(big.NewInt(2), new(big.Int).SetUint64(uint64(n)), nil)
}

// arg is an argument with a snapshot of its value and of its whole backing array.
type arg struct {
	x     *big.Int
	want  *big.Int
	words []big.Word
	back  []big.Word
}

// take copies x into an integer whose backing array is larger than its value.
func take(x *big.Int) *arg {
	bits := x.Bits()
	back := make([]big.Word, len(bits), len(bits)+3)
	copy(back, bits)
	full := back[:cap(back)]
	for i := len(bits); i < len(full); i++ {
		full[i] = big.Word(0xdead)
	}
	y := new(big.Int).SetBits(back)
	if x.Sign() < 0 {
		y.Neg(y)
	}
	return &arg{x: y, want: new(big.Int).Set(x), words: full, back: slices.Clone(full)}
}

func (a *arg) intact() error {
	if a.x.Cmp(a.want) != 0 {
		return fmt.Errorf("argument %v was changed to %v", a.want, a.x)
	}
	if !slices.Equal(a.words[:len(a.want.Bits())], a.back[:len(a.want.Bits())]) {
		return fmt.Errorf("the words of argument %v were changed", a.want)
	}
	return nil
}

func expect(what string, got, want *big.Int) error {
	if got == nil || got.Cmp(want) != 0 {
		return fmt.Errorf("%s = %v, want %v", what, got, want)
	}
	return nil
}

// integer checks the functions of one or two integers and bit positions.
type integer struct {
	X *big.Int `json:"x"`
	Y *big.Int `json:"y"`
	L uint     `json:"l"`
	H uint     `json:"h"`
}

const maxPos = 1 << 18

// maxPows bounds the size of integers whose list of powers of two is made.
const maxPows = 10000

func (c *integer) Check(r *pbt.Rec) error {
	if c.L > c.H || c.H > maxPos {
		return pbt.ErrInvalid
	}
	if err := c.once(r); err != nil {
		return err
	}
	// Whoever asked owns the results, and once overwrote them: asking again gives the same.
	if err := c.once(r); err != nil {
		return fmt.Errorf("second time, after the results of the first were overwritten: %v", err)
	}
	if c.X.BitLen() > 1 && c.H > 0 {
		r.NonTrivial()
	}
	if c.X.Sign() < 0 {
		r.Class("negative")
	}
	if c.H == c.L {
		r.Class("empty range")
	}
	return nil
}

// spoil overwrites integers and their storage.
func spoil(xs ...*big.Int) {
	for _, x := range xs {
		if x == nil {
			continue
		}
		w := x.Bits()
		w = w[:cap(w)]
		for i := range w {
			w[i] = ^w[i]
		}
		x.SetInt64(-7)
	}
}

// spoilList overwrites a list, its integers and its spare capacity.
func spoilList(xs []*big.Int) {
	spoil(xs...)
	xs = xs[:cap(xs)]
	for i := range xs {
		xs[i] = big.NewInt(-8)
	}
}

func (c *integer) once(r *pbt.Rec) error {
	x, y := take(c.X), take(c.Y)
	var errs []error
	try := func(err error) {
		if err != nil {
			errs = append(errs, err)
		}
	}
	// Bit positions.
	mask := bigint.Mask(c.L, c.H)
	want := new(big.Int).Sub(two(c.H), two(c.L))
	try(expect(fmt.Sprintf("Mask(%d,%d)", c.L, c.H), mask, want))
	for i := uint(0); i < c.H+3; i++ {
		in := i >= c.L && i < c.H
		if (mask.Bit(int(i)) == 1) != in {
			try(fmt.Errorf("Mask(%d,%d) has the wrong bit %d", c.L, c.H, i))
			break
		}
	}
	ones, pow := bigint.Ones(c.H), bigint.Pow2(c.L)
	try(expect(fmt.Sprintf("Ones(%d)", c.H), ones, new(big.Int).Sub(two(c.H), ref.One)))
	try(expect(fmt.Sprintf("Pow2(%d)", c.L), pow, two(c.L)))
	spoil(mask, ones, pow)
	// Extract: floor(x / 2^l) mod 2^(h-l).
	if c.X.Sign() >= 0 {
		e := new(big.Int).Div(c.X, two(c.L))
		e.Mod(e, two(c.H-c.L))
		ex := bigint.Extract(x.x, c.L, c.H)
		try(expect(fmt.Sprintf("Extract(%v,%d,%d)", c.X, c.L, c.H), ex, e))
		try(x.intact())
		spoil(ex)
		try(x.intact())
	}
	// Power of two test.
	n, isPow := new(big.Int).Set(c.X), false
	if n.Sign() > 0 {
		for n.Bit(0) == 0 {
			n.Div(n, big.NewInt(2))
		}
		isPow = n.Cmp(ref.One) == 0
	}
	if got := bigint.IsPow2(x.x); got != isPow {
		try(fmt.Errorf("IsPow2(%v) = %v", c.X, got))
	}
	try(x.intact())
	// Powers of two up to x.
	if c.X.BitLen() <= maxPows {
		var pows []*big.Int
		for p := big.NewInt(1); p.Cmp(c.X) <= 0; p = new(big.Int).Add(p, p) {
			pows = append(pows, p)
		}
		got := bigint.Pow2UpTo(x.x)
		if !ref.Equal(got, pows) {
			try(fmt.Errorf("Pow2UpTo(%v) = %v", c.X, got))
		}
		spoilList(got)
	}
	try(x.intact())
	// Set bits, limbs and bytes of non-negative integers (bytes of the absolute value).
	if c.X.Sign() >= 0 {
		var set []int
		for i, b := range []byte(reverse(c.X.Text(2))) {
			if b == '1' {
				set = append(set, i)
			}
		}
		got := bigint.BitsSet(x.x)
		if !slices.Equal(got, set) {
			try(fmt.Errorf("BitsSet(%v) = %v", c.X, got))
		}
		clear(got[:cap(got)])
		try(x.intact())
		limbs := bigint.Uint64s(x.x)
		s := new(big.Int)
		for i, w := range limbs {
			s.Add(s, new(big.Int).Mul(new(big.Int).SetUint64(w), two(uint(64*i))))
		}
		if s.Cmp(c.X) != 0 || len(limbs) != (c.X.BitLen()+63)/64 {
			try(fmt.Errorf("Uint64s(%v) = %x", c.X, limbs))
		}
		clear(limbs[:cap(limbs)])
		try(x.intact())
	}
	le := bigint.BytesLittleEndian(x.x)
	s := new(big.Int)
	for i, b := range le {
		s.Add(s, new(big.Int).Mul(big.NewInt(int64(b)), two(uint(8*i))))
	}
	if s.CmpAbs(c.X) != 0 || len(le) != (c.X.BitLen()+7)/8 {
		try(fmt.Errorf("BytesLittleEndian(%v) = %x", c.X, le))
	}
	try(x.intact())
	// The result may not share storage with x.
	for i := range le {
		le[i] ^= 0xff
	}
	try(x.intact())
	// Two integers.
	lo, hi := bigint.MinMax(x.x, y.x)
	wantLo, wantHi := c.X, c.Y
	if c.X.Cmp(c.Y) > 0 {
		wantLo, wantHi = c.Y, c.X
	}
	try(expect(fmt.Sprintf("MinMax(%v,%v) min", c.X, c.Y), lo, wantLo))
	try(expect(fmt.Sprintf("MinMax(%v,%v) max", c.X, c.Y), hi, wantHi))
	if got := bigint.Equal(x.x, y.x); got != (c.X.Cmp(c.Y) == 0) {
		try(fmt.Errorf("Equal(%v,%v) = %v", c.X, c.Y, got))
	}
	if !bigint.Equal(x.x, new(big.Int).Set(c.X)) {
		try(fmt.Errorf("Equal(%v,copy) is false", c.X))
	}
	if c.Y.IsInt64() {
		if got := bigint.EqualInt64(x.x, c.Y.Int64()); got != (c.X.Cmp(c.Y) == 0) {
			try(fmt.Errorf("EqualInt64(%v,%v) = %v", c.X, c.Y, got))
		}
	}
	if bigint.IsZero(x.x) != (c.X.Sign() == 0) || bigint.IsNonZero(x.x) == (c.X.Sign() == 0) {
		try(fmt.Errorf("IsZero/IsNonZero(%v)", c.X))
	}
	// Clone is independent.
	cl := bigint.Clone(x.x)
	try(expect(fmt.Sprintf("Clone(%v)", c.X), cl, c.X))
	spoil(cl)
	try(x.intact())
	try(y.intact())
	z, o := bigint.Zero(), bigint.One()
	if z.Sign() != 0 || o.Cmp(ref.One) != 0 {
		try(fmt.Errorf("Zero() = %v, One() = %v", z, o))
	}
	spoil(z, o)
	if len(errs) > 0 {
		return errs[0]
	}
	return nil
}

func reverse(s string) string {
	b := []byte(s)
	slices.Reverse(b)
	return string(b)
}

func (c *integer) Shrinks() []pbt.Case {
	var out []pbt.Case
	if c.X.Sign() > 0 {
		for _, x := range gens.ShrinkInt(c.X) {
			out = append(out, &integer{x, c.Y, c.L, c.H})
		}
	}
	if c.Y.Sign() != 0 {
		out = append(out, &integer{c.X, big.NewInt(0), c.L, c.H})
	}
	for _, l := range []uint{0, c.L / 2} {
		if l < c.L {
			out = append(out, &integer{c.X, c.Y, l, c.H})
		}
	}
	for _, h := range []uint{c.L, c.H / 2, c.H - 1} {
		if h >= c.L && h < c.H {
			out = append(out, &integer{c.X, c.Y, c.L, h})
		}
	}
	return out
}

func edge(t *rapid.T, name string, maxBits int) *big.Int {
	x := new(big.Int)
	r := gens.Rand(t)
	switch gens.Uni(t, name, 0, 5) {
	case 0:
		x.SetInt64(int64(gens.Int(t, name, 0, 300)))
	case 1, 2:
		k := gens.Pick(t, name, 1, 7, 8, 9, 31, 32, 33, 63, 64, 65, 127, 128, 129, 191, 192, 193, 256)
		x = two(uint(min(k, maxBits)))
		x.Add(x, big.NewInt(int64(gens.Uni(t, name, -2, 2))))
	case 3:
		x = gens.Bits(r, 1+r.IntN(maxBits))
	case 4: // many zero limbs
		for i := 0; i < 3; i++ {
			x.SetBit(x, r.IntN(maxBits), 1)
		}
	case 5:
		x.Sub(two(uint(1+r.IntN(maxBits))), two(uint(r.IntN(maxBits))))
		x.Abs(x)
	}
	return x
}

func pos(t *rapid.T, name string) uint {
	switch gens.Uni(t, name, 0, 3) {
	case 0:
		return gens.Pick[uint](t, name, 0, 1, 8, 31, 32, 33, 63, 64, 65, 127, 128, 129, 192, 255, 256)
	case 1:
		return uint(gens.Uni(t, name, 0, 1200))
	}
	return uint(gens.Uni(t, name, 0, 140))
}

func genInteger(t *rapid.T) pbt.Case {
	c := &integer{X: edge(t, "x", 600), Y: edge(t, "y", 600), L: pos(t, "l"), H: pos(t, "h")}
	if c.L > c.H {
		c.L, c.H = c.H, c.L
	}
	switch gens.Uni(t, "rel", 0, 3) {
	case 1:
		if near := gens.Near(c.X); len(near) > 0 {
			c.Y = near[gens.Uni(t, "near", 0, len(near)-1)]
		}
	case 0:
		c.Y = new(big.Int).Add(c.X, big.NewInt(int64(gens.Uni(t, "d", -1, 1))))
	}
	if gens.Uni(t, "neg", 0, 5) == 0 {
		c.X.Neg(c.X)
	}
	if gens.Uni(t, "negy", 0, 3) == 0 {
		c.Y.Neg(c.Y)
	}
	return c
}

// literal checks Hex and Binary.
type literal struct {
	S string `json:"s"`
}

// number parses s in the base: digits with underscores as separators, or a
// malformed literal.
func number(s string, base int64) (*big.Int, bool) {
	s = strings.ReplaceAll(s, "_", "")
	neg := false
	if s != "" && (s[0] == '-' || s[0] == '+') {
		neg = s[0] == '-'
		s = s[1:]
	}
	if s == "" {
		return nil, false
	}
	x := new(big.Int)
	for _, c := range []byte(s) {
		d := int64(99)
		switch {
		case c >= '0' && c <= '9':
			d = int64(c - '0')
		case c >= 'a' && c <= 'f':
			d = int64(c-'a') + 10
		case c >= 'A' && c <= 'F':
			d = int64(c-'A') + 10
		}
		if d >= base {
			return nil, false
		}
		x.Mul(x, big.NewInt(base))
		x.Add(x, big.NewInt(d))
	}
	if neg {
		x.Neg(x)
	}
	return x, true
}

// unusual texts may be refused or accepted: signs, base prefixes and underscores
// that separate nothing.
func unusual(s string) bool {
	return strings.ContainsAny(s, "+-xX") || strings.HasPrefix(s, "_") || strings.HasSuffix(s, "_") || strings.Contains(s, "__") ||
		len(s) > 1 && s[0] == '0' && strings.ContainsAny(s[1:2], "bBoO")
}

func (c *literal) Check(r *pbt.Rec) error {
	digits := strings.Count(c.S, "_") < len(c.S)
	for _, f := range []struct {
		name  string
		base  int64
		parse func(string) (*big.Int, bool)
		must  func(string) *big.Int
	}{{"Hex", 16, bigint.Hex, bigint.MustHex}, {"Binary", 2, bigint.Binary, bigint.MustBinary}} {
		want, ok := number(c.S, f.base)
		got, gotOK := f.parse(c.S)
		if unusual(c.S) && ok != gotOK {
			continue
		}
		if ok != gotOK {
			return fmt.Errorf("%s(%q) = %v, %v", f.name, c.S, got, gotOK)
		}
		if ok {
			if err := expect(fmt.Sprintf("%s(%q)", f.name, c.S), got, want); err != nil {
				return err
			}
			spoil(got)
			m := f.must(c.S)
			if err := expect(fmt.Sprintf("Must%s(%q)", f.name, c.S), m, want); err != nil {
				return err
			}
			spoil(m)
			if got, ok := f.parse(c.S); !ok || got.Cmp(want) != 0 {
				return fmt.Errorf("%s(%q) = %v, %v the second time, after the first result was overwritten", f.name, c.S, got, ok)
			}
			r.Class("%s ok", f.name)
			if strings.Contains(c.S, "_") && digits {
				r.NonTrivial()
			}
		} else {
			r.Class("%s refused", f.name)
		}
	}
	return nil
}

func (c *literal) Shrinks() []pbt.Case {
	var out []pbt.Case
	for i := range c.S {
		out = append(out, &literal{c.S[:i] + c.S[i+1:]})
	}
	return out
}

func genLiteral(t *rapid.T) pbt.Case {
	r := gens.Rand(t)
	n := gens.Uni(t, "n", 0, gens.Pick(t, "len", 4, 20, 200))
	alphabet := gens.Pick(t, "alphabet", "01", "0123456789abcdef", "0123456789abcdefABCDEF", "01g", "0123456789abcdefx ")
	var b strings.Builder
	if gens.Uni(t, "sign", 0, 9) == 0 {
		b.WriteByte(gens.Pick(t, "s", byte('-'), byte('+')))
	}
	us := gens.Uni(t, "us", 0, 3)
	for i := 0; i < n; i++ {
		if us > 0 && r.IntN(6) < us {
			b.WriteByte('_')
		}
		c := alphabet[r.IntN(len(alphabet))]
		if (c == 'g' || c == 'x' || c == ' ') && r.IntN(4) > 0 {
			c = '1'
		}
		b.WriteByte(c)
	}
	if us == 3 && r.IntN(2) == 0 {
		b.WriteByte('_')
	}
	return &literal{b.String()}
}

// list checks the list helpers.
type list struct {
	X []*big.Int `json:"x"`
	Y []*big.Int `json:"y"`
	N *big.Int   `json:"n"`
	// Spare capacity of the slices passed in.
	Spare int `json:"spare"`
}

type slot struct {
	arg  []*big.Int
	full []*big.Int // whole backing array as pointers
	vals []*big.Int
	name string
}

func takeList(name string, l []*big.Int, spare int) *slot {
	s := &slot{name: name, vals: l}
	back := make([]*big.Int, len(l)+spare)
	for i := range back {
		if i < len(l) {
			back[i] = new(big.Int).Set(l[i])
		} else {
			back[i] = big.NewInt(-99)
		}
	}
	s.full = slices.Clone(back)
	s.arg = back[:len(l)]
	return s
}

func (s *slot) intact() error {
	back := s.arg[:cap(s.arg)][:len(s.full)]
	for i := range s.full {
		if back[i] != s.full[i] {
			return fmt.Errorf("position %d of the storage of %s = %v (length %d) was overwritten with %v", i, s.name, s.vals, len(s.vals), back[i])
		}
		want := big.NewInt(-99)
		if i < len(s.vals) {
			want = s.vals[i]
		}
		if s.full[i].Cmp(want) != 0 {
			return fmt.Errorf("element %d of %s = %v was changed to %v", i, s.name, s.vals, s.full[i])
		}
	}
	return nil
}

func sorted(l []*big.Int) []*big.Int {
	l = slices.Clone(l)
	sort.SliceStable(l, func(i, j int) bool { return l[i].Cmp(l[j]) < 0 })
	return l
}

func dedup(l []*big.Int) []*big.Int {
	var out []*big.Int
	for _, x := range l {
		if len(out) == 0 || out[len(out)-1].Cmp(x) != 0 {
			out = append(out, x)
		}
	}
	return out
}

func (c *list) Check(r *pbt.Rec) error {
	same := func(what string, got, want []*big.Int) error {
		if !ref.Equal(got, want) {
			return fmt.Errorf("%s = %v, want %v", what, got, want)
		}
		return nil
	}
	x, y := takeList("xs", c.X, c.Spare), takeList("ys", c.Y, c.Spare)
	n := take(c.N)
	all := func(errs ...error) error {
		for _, e := range append(errs, x.intact(), y.intact(), n.intact()) {
			if e != nil {
				return e
			}
		}
		return nil
	}
	first := -1
	for i := len(c.X) - 1; i >= 0; i-- {
		if c.X[i].Cmp(c.N) == 0 {
			first = i
		}
	}
	if got := bigints.Index(n.x, x.arg); got != first {
		return fmt.Errorf("Index(%v, %v) = %d", c.N, c.X, got)
	}
	if got := bigints.Contains(n.x, x.arg); got != (first >= 0) {
		return fmt.Errorf("Contains(%v, %v) = %v", c.N, c.X, got)
	}
	if err := all(same("Clone", bigints.Clone(x.arg), c.X)); err != nil {
		return err
	}
	// A clone is a list of its own.
	cl := bigints.Clone(x.arg)
	for i := range cl {
		cl[i] = nil
	}
	if err := all(); err != nil {
		return err
	}
	if err := all(same(fmt.Sprintf("Concat(%v,%v)", c.X, c.Y), bigints.Concat(x.arg, y.arg), append(slices.Clone(c.X), c.Y...))); err != nil {
		return err
	}
	if err := all(same(fmt.Sprintf("Unique(%v)", c.X), bigints.Unique(x.arg), dedup(c.X))); err != nil {
		return err
	}
	// Sorted lists.
	sx := sorted(c.X)
	xs := takeList("xs", sx, c.Spare)
	if got := bigints.ContainsSorted(n.x, xs.arg); got != (first >= 0) {
		return fmt.Errorf("ContainsSorted(%v, %v) = %v", c.N, sx, got)
	}
	if err := all(xs.intact(), same(fmt.Sprintf("Unique(%v)", sx), bigints.Unique(xs.arg), dedup(sx)), xs.intact()); err != nil {
		return err
	}
	// Sorted distinct lists.
	ux, uy := dedup(sx), dedup(sorted(c.Y))
	xu, yu := takeList("xs", ux, c.Spare), takeList("ys", uy, c.Spare)
	if got := bigints.ContainsSorted(n.x, xu.arg); got != (first >= 0) {
		return fmt.Errorf("ContainsSorted(%v, %v) = %v", c.N, ux, got)
	}
	merged := dedup(sorted(append(slices.Clone(ux), uy...)))
	if err := all(same(fmt.Sprintf("MergeUnique(%v,%v)", ux, uy), bigints.MergeUnique(xu.arg, yu.arg), merged), xu.intact(), yu.intact()); err != nil {
		return err
	}
	ins := dedup(sorted(append(slices.Clone(ux), c.N)))
	if err := all(same(fmt.Sprintf("InsertSortedUnique(%v,%v)", ux, c.N), bigints.InsertSortedUnique(xu.arg, n.x), ins), xu.intact()); err != nil {
		return err
	}
	// Sorting permutes the list itself, keeping the integers.
	z := takeList("xs", c.X, c.Spare)
	bigints.Sort(z.arg)
	if err := same(fmt.Sprintf("Sort(%v)", c.X), z.arg, sx); err != nil {
		return err
	}
	for i := range c.X {
		if z.full[i].Cmp(c.X[i]) != 0 {
			return fmt.Errorf("Sort(%v) changed the integer %v", c.X, c.X[i])
		}
	}
	for i := len(c.X); i < len(z.full); i++ {
		if z.arg[:cap(z.arg)][i] != z.full[i] {
			return fmt.Errorf("Sort(%v) wrote beyond the list", c.X)
		}
	}
	// Machine integers.
	var is []int64
	for _, v := range c.X {
		if v.IsInt64() {
			is = append(is, v.Int64())
		}
	}
	if err := same(fmt.Sprintf("Int64s(%v)", is), bigints.Int64s(is...), ref.Big(is)); err != nil {
		return err
	}
	if len(c.X) >= 2 && len(c.Y) >= 1 {
		r.NonTrivial()
	}
	if first >= 0 {
		r.Class("member")
	} else {
		r.Class("not a member")
	}
	if len(merged) < len(ux)+len(uy) {
		r.Class("merge with common elements")
	}
	return nil
}

func (c *list) Shrinks() []pbt.Case {
	var out []pbt.Case
	for i := range c.X {
		out = append(out, &list{slices.Delete(slices.Clone(c.X), i, i+1), c.Y, c.N, c.Spare})
	}
	for i := range c.Y {
		out = append(out, &list{c.X, slices.Delete(slices.Clone(c.Y), i, i+1), c.N, c.Spare})
	}
	if c.Spare > 0 {
		out = append(out, &list{c.X, c.Y, c.N, 0})
	}
	for i := range c.X {
		if c.X[i].Sign() > 0 {
			for _, x := range gens.ShrinkInt(c.X[i]) {
				l := slices.Clone(c.X)
				l[i] = x
				out = append(out, &list{l, c.Y, c.N, c.Spare})
			}
		}
	}
	return out
}

func genList(t *rapid.T) pbt.Case {
	pool := gens.Uni(t, "pool", 1, 12)
	big_ := gens.Uni(t, "big", 0, 2) == 0
	var vals []*big.Int
	r := gens.Rand(t)
	for i := 0; i < pool; i++ {
		v := big.NewInt(int64(r.IntN(2*pool) - pool/3))
		if big_ {
			v = edge(t, "v", 200)
			if r.IntN(4) == 0 {
				v.Neg(v)
			}
		}
		if i > 0 && r.IntN(4) == 0 {
			// Almost one of the others.
			if near := gens.Near(vals[r.IntN(i)]); len(near) > 0 {
				v = near[r.IntN(len(near))]
			}
		}
		vals = append(vals, v)
	}
	draw := func(name string) []*big.Int {
		n := gens.Uni(t, name, 0, gens.Pick(t, "len", 2, 6, 20, 40))
		l := make([]*big.Int, 0, n)
		for len(l) < n {
			l = append(l, vals[r.IntN(pool)])
		}
		return l
	}
	c := &list{X: draw("nx"), Y: draw("ny"), N: vals[r.IntN(pool)], Spare: gens.Pick(t, "spare", 0, 0, 1, 4, 50)}
	switch gens.Uni(t, "n", 0, 4) {
	case 2:
		if near := gens.Near(c.N); len(near) > 0 {
			c.N = near[r.IntN(len(near))]
		}
	case 0:
		c.N = new(big.Int).Add(c.N, ref.One)
	case 1:
		c.N = new(big.Int).Sub(c.N, ref.One)
	}
	return c
}

// vec checks sums and shifts of vectors, including basis vectors and operands that
// are the same vector or results of earlier operations.
type vec struct {
	N   int     `json:"n"`
	Ops []vecOp `json:"ops"`
}

// vecOp: "new", "basis" (A = index), "add" (A, B vectors), "lsh" (A vector, S).
type vecOp struct {
	Op string `json:"op"`
	A  int    `json:"a,omitempty"`
	B  int    `json:"b,omitempty"`
	S  uint   `json:"s,omitempty"`
}

func (c *vec) Check(r *pbt.Rec) error {
	if c.N < 0 || c.N > maxPos {
		return pbt.ErrInvalid
	}
	var vs []bigvector.Vector
	var want [][]*big.Int
	for _, op := range c.Ops {
		w := make([]*big.Int, c.N)
		var v bigvector.Vector
		ok := func(i int) bool { return i >= 0 && i < len(vs) }
		switch op.Op {
		case "new":
			v = bigvector.New(c.N)
			for i := range w {
				w[i] = new(big.Int)
			}
		case "basis":
			if op.A < 0 || op.A >= c.N {
				return pbt.ErrInvalid
			}
			v = bigvector.NewBasis(c.N, op.A)
			for i := range w {
				w[i] = new(big.Int)
			}
			w[op.A] = big.NewInt(1)
		case "add":
			if !ok(op.A) || !ok(op.B) {
				return pbt.ErrInvalid
			}
			v = bigvector.Add(vs[op.A], vs[op.B])
			for i := range w {
				w[i] = new(big.Int).Add(want[op.A][i], want[op.B][i])
			}
		case "lsh":
			if !ok(op.A) || op.S > maxPos {
				return pbt.ErrInvalid
			}
			v = bigvector.Lsh(vs[op.A], op.S)
			for i := range w {
				w[i] = new(big.Int).Mul(want[op.A][i], two(op.S))
			}
		default:
			return pbt.ErrInvalid
		}
		vs = append(vs, v)
		want = append(want, w)
		// All vectors made so far hold their values.
		for k, v := range vs {
			if v.Len() != c.N {
				return fmt.Errorf("vector %d has length %d after %v", k, v.Len(), op)
			}
			for i := range want[k] {
				if got := v.Idx(i); got == nil || got.Cmp(want[k][i]) != 0 {
					return fmt.Errorf("element %d of vector %d (of %v) is %v, want %v after operation %d", i, k, c.Ops[k], got, want[k][i], len(vs)-1)
				}
			}
		}
	}
	if len(c.Ops) >= 3 && c.N >= 2 {
		r.NonTrivial()
	}
	return nil
}

func (c *vec) Shrinks() []pbt.Case {
	var out []pbt.Case
	if len(c.Ops) > 1 {
		out = append(out, &vec{c.N, c.Ops[:len(c.Ops)-1]})
	}
	for i, op := range c.Ops {
		if op.S > 0 {
			o := slices.Clone(c.Ops)
			o[i].S /= 2
			out = append(out, &vec{c.N, o})
		}
	}
	return out
}

func genVec(t *rapid.T) pbt.Case {
	c := &vec{N: gens.Uni(t, "n", 1, 8)}
	for i, k := 0, gens.Uni(t, "ops", 1, 12); i < k; i++ {
		op := vecOp{Op: gens.Pick(t, "op", "new", "basis", "basis", "add", "add", "add", "lsh", "lsh")}
		if i == 0 && op.Op != "new" {
			op.Op = "basis"
		}
		switch op.Op {
		case "basis":
			op.A = gens.Uni(t, "i", 0, c.N-1)
		case "add":
			op.A, op.B = gens.Uni(t, "a", 0, i-1), gens.Uni(t, "b", 0, i-1)
		case "lsh":
			op.A, op.S = gens.Uni(t, "a", 0, i-1), uint(gens.Pick(t, "s", 0, 1, 2, 5, 63, 64, 65, 200))
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

// long is an argument of regular shape and size around 2^8 to 2^16, where a size kept
// in a narrow integer would wrap.
type long struct {
	F     string `json:"f"` // integer, literal, list, vector
	N     int    `json:"n"`
	Shape int    `json:"shape"`
}

const longShapes = 6

func (c *long) expand() pbt.Case {
	n := c.N
	u := uint(n)
	switch c.F {
	case "integer":
		one := ref.One
		switch c.Shape {
		case 0:
			return &integer{two(u), two(u), u, u + 1}
		case 1:
			return &integer{new(big.Int).Sub(two(u), one), two(u), 0, u}
		case 2:
			return &integer{new(big.Int).Add(two(u), one), new(big.Int).Sub(two(u), one), 1, u + 1}
		case 3:
			return &integer{new(big.Int).Div(two(u+5), big.NewInt(3)), new(big.Int).Neg(two(u)), u / 2, u}
		case 4:
			return &integer{new(big.Int).Div(two(u+9), big.NewInt(7)), one, u - 1, u}
		default:
			return &integer{new(big.Int).Neg(two(u)), new(big.Int).Neg(two(u + 1)), u, u}
		}
	case "literal":
		switch c.Shape {
		case 0:
			return &literal{strings.Repeat("f", n)}
		case 1:
			return &literal{strings.Repeat("1", n)}
		case 2:
			return &literal{strings.Repeat("0", n) + "1"}
		case 3:
			return &literal{strings.Repeat("0110_", n/5) + "1"}
		case 4:
			return &literal{strings.Repeat("1", n) + "g"}
		default:
			return &literal{"1" + strings.Repeat("0", n)}
		}
	case "list":
		var x, y []*big.Int
		k := int64(n)
		for i := 0; i < n; i++ {
			j := int64(i)
			switch c.Shape {
			case 0: // ascending
				x = append(x, big.NewInt(2*j))
			case 1: // all equal
				x, k = append(x, big.NewInt(7)), 7
			case 2: // interleaved with a second list
				x, y = append(x, big.NewInt(2*j)), append(y, big.NewInt(2*j+1))
			case 3: // descending, and the same values again
				x, y = append(x, big.NewInt(int64(n-i))), append(y, big.NewInt(j+1))
			case 4: // scattered
				x = append(x, big.NewInt(int64(i*7919+11)%int64(n)))
			default: // each value twice, the last one searched
				x, k = append(x, big.NewInt(j/2)), int64((n-1)/2)
			}
		}
		return &list{x, y, big.NewInt(k), c.Shape}
	default:
		v := &vec{N: n, Ops: []vecOp{{Op: "basis", A: n - 1}, {Op: "basis", A: 0}, {Op: "basis", A: n / 2}, {Op: "add", A: 0, B: 1}, {Op: "lsh", A: 3, S: uint(c.Shape)}, {Op: "add", A: 4, B: 2}}}
		if c.Shape > 0 {
			return v
		}
		// One coordinate shifted far.
		return &vec{N: 2, Ops: []vecOp{{Op: "basis", A: 1}, {Op: "basis", A: 0}, {Op: "add", A: 0, B: 1}, {Op: "lsh", A: 2, S: u}, {Op: "add", A: 3, B: 3}, {Op: "lsh", A: 0, S: u}}}
	}
}

func (c *long) Check(r *pbt.Rec) error {
	if c.N < 8 || c.N > maxPos/2 || c.Shape < 0 || c.Shape >= longShapes {
		return pbt.ErrInvalid
	}
	if err := c.expand().Check(r); err != nil {
		s := err.Error()
		if len(s) > 600 {
			s = s[:300] + " ... " + s[len(s)-300:]
		}
		return fmt.Errorf("%s", s)
	}
	return nil
}

func (c *long) Shrinks() []pbt.Case {
	return []pbt.Case{&long{c.F, c.N / 2, c.Shape}, &long{c.F, c.N - c.N/8, c.Shape}, &long{c.F, c.N - 1, c.Shape}}
}

// ladder takes regular arguments of growing size.
func ladder(e *pbt.Enum) {
	gens.Steps(pbt.Pick(e.Tier, 130, 300), pbt.Pick(e.Tier, 600, 1025), func(n int) bool {
		u := uint(n)
		p := two(u)
		pm, pp := new(big.Int).Sub(p, ref.One), new(big.Int).Add(p, ref.One)
		third := new(big.Int).Div(two(u+9), big.NewInt(3))
		for _, x := range []*big.Int{p, pm, pp, third, new(big.Int).Neg(p), new(big.Int).Mul(pm, pp)} {
			for i, y := range gens.Near(x) {
				if i%4 == n%4 && e.Mine() && !e.Do(&integer{x, y, 0, u}) {
					return false
				}
			}
			for _, r := range [][2]uint{{0, u}, {u, u + 1}, {u, u}, {u / 2, u}, {u - 1, 2 * u}, {u, 3 * u}, {0, 1}, {u - 1, u}} {
				if e.Mine() && !e.Do(&integer{x, pm, r[0], r[1]}) {
					return false
				}
			}
		}
		if n > 300 {
			return true
		}
		for _, s := range []string{"0x" + strings.Repeat("f", n), strings.Repeat("1", n), strings.Repeat("1_", n) + "0", strings.Repeat("0", n) + "1", strings.Repeat("_", n), strings.Repeat("01_", n)} {
			if e.Mine() && !e.Do(&literal{s}) {
				return false
			}
		}
		if n <= 64 {
			v := &vec{N: n}
			for i := 0; i < n; i += max(1, n/5) {
				v.Ops = append(v.Ops, vecOp{Op: "basis", A: i})
			}
			m := len(v.Ops)
			v.Ops = append(v.Ops, vecOp{Op: "basis", A: n - 1}, vecOp{Op: "add", A: 0, B: m}, vecOp{Op: "lsh", A: m + 1, S: u}, vecOp{Op: "add", A: m + 2, B: m + 2}, vecOp{Op: "new"}, vecOp{Op: "add", A: m + 4, B: 0})
			if e.Mine() && !e.Do(v) {
				return false
			}
		}
		if near := gens.Near(third); n <= 300 {
			all := append(ref.Clone(near), third)
			for i, y := range near {
				if i%4 == n%4 && e.Mine() && !e.Do(&list{[]*big.Int{third, y}, all[:i+1], y, 1}) {
					return false
				}
				if i%4 == n%4 && e.Mine() && !e.Do(&list{all, []*big.Int{y, third}, third, 0}) {
					return false
				}
			}
		}
		var up, down, same, zig, wide []*big.Int
		for i := 0; i < n; i++ {
			up = append(up, big.NewInt(int64(2*i)))
			down = append(down, big.NewInt(int64(2*(n-i))))
			same = append(same, big.NewInt(7))
			zig = append(zig, big.NewInt(int64((i*37+11)%n)))
			wide = append(wide, new(big.Int).Lsh(big.NewInt(int64(i%5-2)), uint(i)))
		}
		ls := [][]*big.Int{up, down, same, zig, wide, {}}
		for i, x := range ls {
			for j, y := range ls {
				for _, k := range []int64{-1, 0, int64(n), int64(2*n - 2), int64(2*n - 1), 7} {
					if n > 40 && (i+j+int(k&1))%3 != 0 {
						continue
					}
					if e.Mine() && !e.Do(&list{x, y, big.NewInt(k), n % 3}) {
						return false
					}
				}
			}
		}
		return true
	})
}

func main() {
	pbt.Main(&pbt.Spec{
		ID:   "C19",
		Rule: "A case is the arguments of a group of helper functions; it is non-trivial when the integer has at least two bits and the bit range is not at 0 / the lists have several elements / a literal contains a separator / a vector history has three operations. Oracle: arithmetic definitions computed by repeated multiplication, digit loops and quadratic list scans; every argument, including spare capacity of its storage, is compared after the call.",
		Assumptions: []string{
			"In range: l <= h for masks and extraction, non-negative integers for extraction, set bits and limbs; lists sorted (and distinct) where the name says so.",
		},
		Kinds: map[string]func() pbt.Case{
			"long":    func() pbt.Case { return &long{} },
			"integer": func() pbt.Case { return &integer{} },
			"literal": func() pbt.Case { return &literal{} },
			"list":    func() pbt.Case { return &list{} },
			"vec":     func() pbt.Case { return &vec{} },
		},
		Sections: []pbt.Section{
			{Name: "small-integers", Enum: func(e *pbt.Enum) {
				for x := int64(-3); x < int64(pbt.Pick(e.Tier, 300, 2100)); x++ {
					if !e.Mine() {
						continue
					}
					for h := uint(0); h <= 10; h++ {
						for l := uint(0); l <= h; l++ {
							if !e.Do(&integer{big.NewInt(x), big.NewInt(int64(h*3+l) - 3), l, h}) {
								return
							}
						}
					}
				}
			}},
			{Name: "bit-ranges", Enum: func(e *pbt.Enum) {
				top := pbt.Pick[uint](e.Tier, 200, 420)
				for h := uint(0); h <= top; h++ {
					if !e.Mine() {
						continue
					}
					x := new(big.Int).Div(two(top+70), big.NewInt(3))
					for l := uint(0); l <= h; l++ {
						if !e.Do(&integer{x, two(h), l, h}) {
							return
						}
					}
				}
			}},
			{Name: "small-literals", Enum: func(e *pbt.Enum) {
				alphabet := "01_9aFg-"
				for n := 0; n <= pbt.Pick(e.Tier, 5, 6); n++ {
					s := make([]byte, n)
					var rec func(k int) bool
					rec = func(k int) bool {
						if k == n {
							return e.Do(&literal{string(s)})
						}
						if k == min(2, n-1) && !e.Mine() {
							return true
						}
						for _, c := range []byte(alphabet) {
							s[k] = c
							if !rec(k + 1) {
								return false
							}
						}
						return true
					}
					if n == 0 && !e.Mine() {
						continue
					}
					if !rec(0) {
						return
					}
				}
			}},
			{Name: "small-lists", Enum: func(e *pbt.Enum) {
				m := 3
				ln := pbt.Pick(e.Tier, 3, 4)
				var lists [][]*big.Int
				var rec func(l []int64)
				rec = func(l []int64) {
					lists = append(lists, ref.Big(slices.Clone(l)))
					if len(l) == ln {
						return
					}
					for v := 0; v < m; v++ {
						rec(append(slices.Clone(l), int64(2*v)))
					}
				}
				rec(nil)
				for _, x := range lists {
					if !e.Mine() {
						continue
					}
					for _, y := range lists {
						for n := int64(-1); n <= int64(2*m-1); n++ {
							if !e.Do(&list{x, y, big.NewInt(n), int(n+1) % 3}) {
								return
							}
						}
					}
				}
			}},
			{Name: "ladder", Enum: ladder},
			{Name: "long", CaseCPU: 300, Enum: func(e *pbt.Enum) {
				sizes := []int{255, 256, 257, 1023, 4095, 4096, 4097, 8191, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 70000}
				if e.Tier == pbt.Thorough {
					sizes = append(sizes, 511, 512, 1024, 2047, 2048, 8192, 10000, 16383, 16384, 50000, 99999, 100000, 131071)
				}
				for _, n := range sizes {
					for _, f := range []string{"integer", "literal", "list", "vector"} {
						for s := 0; s < longShapes; s++ {
							if e.Mine() && !e.Do(&long{f, n, s}) {
								return
							}
						}
					}
				}
			}},
			{Name: "random-integers", Fuzz: 90, N: 60000, Gen: genInteger},
			{Name: "random-literals", Fuzz: 90, N: 60000, Gen: genLiteral, Seconds: 30},
			{Name: "random-lists", Fuzz: 90, N: 60000, Gen: genList},
			{Name: "random-vectors", Fuzz: 90, N: 40000, Gen: genVec},
		},
	})
}
