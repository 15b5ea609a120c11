From ea6dc1c9642c365b73bff3f3468a7587567e3619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:25 +0000
Subject: [PATCH 01/17] fix: parenthesize printed expressions according to the
 grammar

The operand of a shift or double must be a base expression, and addition
is left associative. Nested doubles and shifts, and additions on the
right of an addition, were printed without parentheses, so that the
output did not parse or parsed to a different expression.
---
 acc/printer/printer.go | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/acc/printer/printer.go b/acc/printer/printer.go
index 96e8baa..fd20671 100644
--- a/acc/printer/printer.go
+++ b/acc/printer/printer.go
@@ -61,7 +61,7 @@ func (p *printer) node(n interface{}) {
 	case ast.Statement:
 		p.statement(n)
 	case ast.Expr:
-		p.expr(n, nil)
+		p.expr(n)
 	default:
 		p.SetError(errutil.UnexpectedType(n))
 	}
@@ -73,19 +73,28 @@ func (p *printer) statement(stmt ast.Statement) {
 	} else {
 		p.Printf("return\t\t")
 	}
-	p.expr(stmt.Expr, nil)
+	p.expr(stmt.Expr)
 	p.NL()
 }
 
-func (p *printer) expr(e, parent ast.Expr) {
-	// Parens required if the precence of this operator is less than its parent.
-	if parent != nil && e.Precedence() < parent.Precedence() {
-		p.Printf("(")
-		p.expr(e, nil)
-		p.Printf(")")
+// paren prints the expression e in parentheses.
+func (p *printer) paren(e ast.Expr) {
+	p.Printf("(")
+	p.expr(e)
+	p.Printf(")")
+}
+
+// base prints e as a base expression: in the grammar, the operand of a shift or
+// double must be parenthesized unless it is a plain operand or identifier.
+func (p *printer) base(e ast.Expr) {
+	if ast.IsOp(e) {
+		p.paren(e)
 		return
 	}
+	p.expr(e)
+}
 
+func (p *printer) expr(e ast.Expr) {
 	switch e := e.(type) {
 	case ast.Operand:
 		p.operand(e)
@@ -103,18 +112,23 @@ func (p *printer) expr(e, parent ast.Expr) {
 }
 
 func (p *printer) add(a ast.Add) {
-	p.expr(a.X, a)
+	p.expr(a.X)
 	p.Printf(" + ")
-	p.expr(a.Y, a)
+	// Addition is left associative, so an addition on the right needs parens.
+	if _, ok := a.Y.(ast.Add); ok {
+		p.paren(a.Y)
+		return
+	}
+	p.expr(a.Y)
 }
 
 func (p *printer) double(d ast.Double) {
 	p.Printf("2*")
-	p.expr(d.X, d)
+	p.base(d.X)
 }
 
 func (p *printer) shift(s ast.Shift) {
-	p.expr(s.X, s)
+	p.base(s.X)
 	p.Printf(" << %d", s.S)
 }
 
-- 
2.43.0


From a315f71f6950e7bcbd92765680d32f7c5b6c8bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:31 +0000
Subject: [PATCH 02/17] fix: print operand indexes as unsigned

The index literals of the language are unsigned, so an index above the
maximum int printed as a negative number, which does not parse.
---
 acc/printer/printer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acc/printer/printer.go b/acc/printer/printer.go
index fd20671..6aa0886 100644
--- a/acc/printer/printer.go
+++ b/acc/printer/printer.go
@@ -140,6 +140,7 @@ func (p *printer) operand(op ast.Operand) {
 	if op == 0 {
 		p.Printf("1")
 	} else {
-		p.Printf("[%d]", op)
+		// Indexes in the language are unsigned.
+		p.Printf("[%d]", uint(op))
 	}
 }
-- 
2.43.0


From f749ad9038a18f1dbaab48dd6660694b230bc76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:48 +0000
Subject: [PATCH 03/17] fix: build the trivial chain from an empty program

The builder assumed at least one instruction and panicked on the empty
program, for example in "addchain search 1".
---
 acc/build.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/acc/build.go b/acc/build.go
index 38adda3..29f8448 100644
--- a/acc/build.go
+++ b/acc/build.go
@@ -79,6 +79,14 @@ func (b *builder) process() error {
 		complexity = 0
 	}
 
+	// The program with no instructions computes the trivial chain.
+	if n == 0 {
+		b.chain.Statements = append(b.chain.Statements, ast.Statement{
+			Expr: ast.Operand(0),
+		})
+		return nil
+	}
+
 	// Clear the name of the final statement.
 	b.chain.Statements[len(b.chain.Statements)-1].Name = ""
 
-- 
2.43.0


From 902e27a7e3af788f9068ee3652037a2dade5ee58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 04/17] fix: allocator error for programs with no instructions

Allocation of a program without instructions panicked, for example in
"addchain gen" on the script "return 1".
---
 acc/pass/alloc.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/acc/pass/alloc.go b/acc/pass/alloc.go
index 812df5a..cc270f1 100644
--- a/acc/pass/alloc.go
+++ b/acc/pass/alloc.go
@@ -1,6 +1,7 @@
 package pass
 
 import (
+	"errors"
 	"fmt"
 
 	"github.com/mmcloughlin/addchain/acc/ir"
@@ -24,6 +25,11 @@ type Allocator struct {
 
 // Execute performs temporary variable allocation.
 func (a Allocator) Execute(p *ir.Program) error {
+	// A program without instructions has no output to allocate.
+	if len(p.Instructions) == 0 {
+		return errors.New("cannot allocate program with no instructions")
+	}
+
 	// Canonicalize operands, collect unique indexes, and delete all names.
 	if err := Exec(p, Func(CanonicalizeOperands), Func(Indexes), Func(ClearNames)); err != nil {
 		return err
-- 
2.43.0


From 4b365f5aff8a78900e27f620051e272714ca74af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:50 +0000
Subject: [PATCH 05/17] fix: refuse to generate code for dangling inputs

A script may refer by index to an intermediate result of a shift, which no
instruction outputs. Generated code then read a variable that is never
written. Apply the existing validation pass to report an error instead.
---
 internal/gen/gen.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/gen/gen.go b/internal/gen/gen.go
index 46a7775..f9bfea9 100644
--- a/internal/gen/gen.go
+++ b/internal/gen/gen.go
@@ -56,9 +56,10 @@ func PrepareData(cfg Config, s *ast.Chain) (*Data, error) {
 		return nil, err
 	}
 
-	// Apply processing passes: temporary variable allocation, and computing the
-	// full addition chain sequence and operations.
-	if err := pass.Exec(p, cfg.Allocator, pass.Func(pass.Eval)); err != nil {
+	// Apply processing passes: check every instruction input is the output of
+	// some instruction, temporary variable allocation, and computing the full
+	// addition chain sequence and operations.
+	if err := pass.Exec(p, pass.Validate, cfg.Allocator, pass.Func(pass.Eval)); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From 44a8de1cb723b0990b1dab10bfd9832fc8dd5f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 06/17] fix: reject shift by zero

A shift by zero translated to an instruction whose output is the previous
chain element rather than its operand, for which generated code is wrong.
---
 acc/translate.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/acc/translate.go b/acc/translate.go
index 91bfcf1..99aecf8 100644
--- a/acc/translate.go
+++ b/acc/translate.go
@@ -1,6 +1,7 @@
 package acc
 
 import (
+	"errors"
 	"fmt"
 
 	"github.com/mmcloughlin/addchain/acc/ast"
@@ -110,6 +111,10 @@ func (s *state) shift(sh ast.Shift) (*ir.Operand, error) {
 		return nil, err
 	}
 
+	if sh.S == 0 {
+		return nil, errors.New("shift amount must be at least one")
+	}
+
 	s.n += int(sh.S)
 	out := ir.Index(s.n - 1)
 	inst := &ir.Instruction{
-- 
2.43.0


From 9e0eaf7995a5e524ba7c420e8169c28df4c3a622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:52 +0000
Subject: [PATCH 07/17] fix: check all lengths before building runs chain

The size check applied to the operands of each operation as it was
processed, so that the chain for earlier enormous lengths exhausted memory
before the error, and a final oversize length was not checked at all.
---
 alg/dict/runs.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/alg/dict/runs.go b/alg/dict/runs.go
index 5277be4..661edec 100644
--- a/alg/dict/runs.go
+++ b/alg/dict/runs.go
@@ -84,14 +84,16 @@ func RunsChain(lc addchain.Chain) (addchain.Chain, error) {
 		return nil, err
 	}
 
+	for _, l := range lc {
+		if !l.IsUint64() {
+			return nil, errors.New("values in lengths chain are far too large")
+		}
+	}
+
 	c := addchain.New()
 	s := map[uint]uint{} // current largest shift of each run length
 	for _, op := range p {
 		a, b := bigint.MinMax(lc[op.I], lc[op.J])
-		if !a.IsUint64() || !b.IsUint64() {
-			return nil, errors.New("values in lengths chain are far too large")
-		}
-
 		la := uint(a.Uint64())
 		lb := uint(b.Uint64())
 
-- 
2.43.0


From b99674761febd821bceaac4a5348d2027efa7c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:52 +0000
Subject: [PATCH 08/17] fix: memoize parser results

Without memoization parse time is exponential in the nesting depth of
parentheses: about 20 levels took minutes.
---
 acc/parse/parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acc/parse/parse.go b/acc/parse/parse.go
index 8523e14..5b7eaf4 100644
--- a/acc/parse/parse.go
+++ b/acc/parse/parse.go
@@ -13,13 +13,13 @@ import (
 
 // File parses filename.
 func File(filename string) (*ast.Chain, error) {
-	return cast(parser.ParseFile(filename))
+	return cast(parser.ParseFile(filename, parser.Memoize(true)))
 }
 
 // Reader parses the data from r using filename as information in
 // error messages.
 func Reader(filename string, r io.Reader) (*ast.Chain, error) {
-	return cast(parser.ParseReader(filename, r))
+	return cast(parser.ParseReader(filename, r, parser.Memoize(true)))
 }
 
 // String parses s.
-- 
2.43.0


From e5822399be268f6a05863b9a1ed9f25f6c6fc467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:53 +0000
Subject: [PATCH 09/17] fix: error on division by zero

Evaluating an expression with a division by zero panicked.
---
 internal/calc/calc.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/internal/calc/calc.go b/internal/calc/calc.go
index 71eed0c..754c061 100644
--- a/internal/calc/calc.go
+++ b/internal/calc/calc.go
@@ -21,17 +21,26 @@ type operator struct {
 	precedence    int
 	associativity associativity
 	apply         func(*big.Int, *big.Int, *big.Int) *big.Int
+	check         func(x, y *big.Int) error // optional operand check
 }
 
 // operators supported by the calculator.
 var operators = map[byte]operator{
 	'^': {precedence: 3, associativity: rightassociative, apply: func(z, x, y *big.Int) *big.Int { return z.Exp(x, y, nil) }},
 	'*': {precedence: 3, associativity: leftassociative, apply: (*big.Int).Mul},
-	'/': {precedence: 3, associativity: leftassociative, apply: (*big.Int).Div},
+	'/': {precedence: 3, associativity: leftassociative, apply: (*big.Int).Div, check: nonzerodivisor},
 	'+': {precedence: 2, associativity: leftassociative, apply: (*big.Int).Add},
 	'-': {precedence: 2, associativity: leftassociative, apply: (*big.Int).Sub},
 }
 
+// nonzerodivisor checks operands of a division.
+func nonzerodivisor(_, y *big.Int) error {
+	if y.Sign() == 0 {
+		return errors.New("division by zero")
+	}
+	return nil
+}
+
 // yard implements the "shunting yard" algorithm.
 type yard struct {
 	operands  []*big.Int
@@ -70,6 +79,12 @@ func (y *yard) apply(op operator) error {
 		return errors.New("too few operands")
 	}
 
+	if op.check != nil {
+		if err := op.check(y.operands[n-2], y.operands[n-1]); err != nil {
+			return err
+		}
+	}
+
 	z := new(big.Int)
 	op.apply(z, y.operands[n-2], y.operands[n-1])
 	y.operands = append(y.operands[:n-2], z)
-- 
2.43.0


From 68d190dd05a2c73a3d49ae315bf257893c78145d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:54 +0000
Subject: [PATCH 10/17] fix: validate search target and concurrency

Targets that are not positive have no addition chain, and made algorithms
panic or run forever. A concurrency limit of zero deadlocked and a negative
one panicked.
---
 cmd/addchain/search.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmd/addchain/search.go b/cmd/addchain/search.go
index 434e484..1c2a2a5 100644
--- a/cmd/addchain/search.go
+++ b/cmd/addchain/search.go
@@ -58,6 +58,10 @@ func (cmd *search) Execute(_ context.Context, f *flag.FlagSet, _ ...interface{})
 	}
 	expr := f.Arg(0)
 
+	if cmd.concurrency < 1 {
+		return cmd.UsageError("concurrency must be at least 1")
+	}
+
 	// Evaluate expression.
 	cmd.Log.Printf("expr: %q", expr)
 
@@ -66,6 +70,10 @@ func (cmd *search) Execute(_ context.Context, f *flag.FlagSet, _ ...interface{})
 		return cmd.Fail("failed to evaluate %q: %s", expr, err)
 	}
 
+	if n.Sign() <= 0 {
+		return cmd.Fail("target %s must be positive", n)
+	}
+
 	cmd.Log.Printf("hex: %x", n)
 	cmd.Log.Printf("dec: %s", n)
 
-- 
2.43.0


From 7df6fa2815822e6d404f30700bb8eeb66fec57c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:25 +0000
Subject: [PATCH 11/17] fix: window sizes that do not fit an int

Decompose with FixedWindow or SlidingWindow did not terminate when K exceeds the
largest int.
---
 alg/dict/dict.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/alg/dict/dict.go b/alg/dict/dict.go
index 08a1fa0..fcb5b86 100644
--- a/alg/dict/dict.go
+++ b/alg/dict/dict.go
@@ -82,6 +82,11 @@ func (w FixedWindow) String() string { return fmt.Sprintf("fixed_window(%d)", w.
 
 // Decompose represents x in terms of k-bit windows from left to right.
 func (w FixedWindow) Decompose(x *big.Int) Sum {
+	// Windows larger than x are equivalent to a window of its size.
+	if w.K > uint(x.BitLen()) {
+		w.K = uint(x.BitLen())
+	}
+
 	sum := Sum{}
 	h := x.BitLen()
 	for h > 0 {
@@ -107,6 +112,11 @@ func (w SlidingWindow) String() string { return fmt.Sprintf("sliding_window(%d)"
 
 // Decompose represents x in base 2ᵏ.
 func (w SlidingWindow) Decompose(x *big.Int) Sum {
+	// Windows larger than x are equivalent to a window of its size.
+	if w.K > uint(x.BitLen()) {
+		w.K = uint(x.BitLen())
+	}
+
 	sum := Sum{}
 	h := x.BitLen() - 1
 	for h >= 0 {
-- 
2.43.0


From b551d239705b028e190e2a14bf551c40b67d8f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:19 +0000
Subject: [PATCH 12/17] fix: no more concurrency slots than algorithms

Waiting for completion filled every slot, one at a time, so a large limit
such as 'search -p 99999999999' practically never returned.
---
 alg/exec/exec.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/alg/exec/exec.go b/alg/exec/exec.go
index 54935e7..21f5407 100644
--- a/alg/exec/exec.go
+++ b/alg/exec/exec.go
@@ -76,9 +76,15 @@ func (p *Parallel) SetLogger(l *log.Logger) {
 func (p Parallel) Execute(n *big.Int, as []alg.ChainAlgorithm) []Result {
 	rs := make([]Result, len(as))
 
+	// There is no use for more slots than algorithms.
+	limit := p.limit
+	if limit > len(as) {
+		limit = len(as)
+	}
+
 	// Use buffered channel to limit concurrency.
 	type token struct{}
-	sem := make(chan token, p.limit)
+	sem := make(chan token, limit)
 
 	for i, a := range as {
 		sem <- token{}
@@ -91,7 +97,7 @@ func (p Parallel) Execute(n *big.Int, as []alg.ChainAlgorithm) []Result {
 	}
 
 	// Wait for completion.
-	for i := 0; i < p.limit; i++ {
+	for i := 0; i < limit; i++ {
 		sem <- token{}
 	}
 
-- 
2.43.0


From 3640b7da472131e0ad79c2cdf297b80dc22ed242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:26 +0000
Subject: [PATCH 13/17] fix: allocate programs with several names for one
 operand index

The allocator deletes all names, but canonicalized operands first, which fails
when an index is referred to by different names (for example after [1] was given
a second name in a script).
---
 acc/pass/alloc.go  | 4 ++--
 acc/pass/naming.go | 8 ++++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/acc/pass/alloc.go b/acc/pass/alloc.go
index cc270f1..0f63fa2 100644
--- a/acc/pass/alloc.go
+++ b/acc/pass/alloc.go
@@ -30,8 +30,8 @@ func (a Allocator) Execute(p *ir.Program) error {
 		return errors.New("cannot allocate program with no instructions")
 	}
 
-	// Canonicalize operands, collect unique indexes, and delete all names.
-	if err := Exec(p, Func(CanonicalizeOperands), Func(Indexes), Func(ClearNames)); err != nil {
+	// Delete all names, canonicalize operands, and collect unique indexes.
+	if err := Exec(p, Func(ClearNames), Func(CanonicalizeOperands), Func(Indexes)); err != nil {
 		return err
 	}
 
diff --git a/acc/pass/naming.go b/acc/pass/naming.go
index e417ef1..dd96a51 100644
--- a/acc/pass/naming.go
+++ b/acc/pass/naming.go
@@ -23,6 +23,14 @@ var (
 
 // ClearNames deletes all operand names.
 func ClearNames(p *ir.Program) error {
+	// Delete names from every operand object first, since conflicting names are
+	// not a reason to fail if they are going to be deleted anyway.
+	for _, i := range p.Instructions {
+		for _, operand := range i.Operands() {
+			operand.Identifier = ""
+		}
+	}
+
 	if err := CanonicalizeOperands(p); err != nil {
 		return err
 	}
-- 
2.43.0


From 1042c20749806971b81a9217144f058b0db7e7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:36 +0000
Subject: [PATCH 14/17] fix: do not record operands when canonicalization fails

A second canonicalization after a name conflict succeeded with the incomplete
set of operands, and allocation then left operands without a name.
---
 acc/pass/pass.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/acc/pass/pass.go b/acc/pass/pass.go
index 11c3a8a..9dee576 100644
--- a/acc/pass/pass.go
+++ b/acc/pass/pass.go
@@ -49,15 +49,15 @@ func CanonicalizeOperands(p *ir.Program) error {
 		return nil
 	}
 
-	p.Operands = map[int]*ir.Operand{}
+	operands := map[int]*ir.Operand{}
 
 	// First pass through determines canonical operand for each index.
 	for _, i := range p.Instructions {
 		for _, operand := range i.Operands() {
 			// Look for an existing operand object for this index.
-			existing, found := p.Operands[operand.Index]
+			existing, found := operands[operand.Index]
 			if !found {
-				p.Operands[operand.Index] = operand
+				operands[operand.Index] = operand
 				continue
 			}
 
@@ -76,6 +76,10 @@ func CanonicalizeOperands(p *ir.Program) error {
 		}
 	}
 
+	// Operands are only recorded if there are no conflicts, since they will not be
+	// computed again.
+	p.Operands = operands
+
 	// Second pass through replaces all operands with the canonical version.
 	for _, i := range p.Instructions {
 		switch op := i.Op.(type) {
-- 
2.43.0


From 847f68b683a9e0432b38d48da9d7a9360a0d4e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:52 +0000
Subject: [PATCH 15/17] fix: reset temporaries when a program is allocated
 again

The temporaries of the earlier allocation stayed declared although no operand
uses them.
---
 acc/pass/alloc.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/acc/pass/alloc.go b/acc/pass/alloc.go
index 0f63fa2..8a6b185 100644
--- a/acc/pass/alloc.go
+++ b/acc/pass/alloc.go
@@ -67,8 +67,10 @@ func (a Allocator) Execute(p *ir.Program) error {
 		}
 	}
 
-	// Map from variable index to name.
+	// Map from variable index to name. Temporaries of an earlier allocation are no
+	// longer in use.
 	name := map[int]string{}
+	p.Temporaries = nil
 	outv := allocation.Variable(p.Output().Index)
 	for _, index := range p.Indexes {
 		op := p.Operands[index]
-- 
2.43.0


From 3e76743d74843649dcc99b93f5f114d961e2b257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:37 +0000
Subject: [PATCH 16/17] fix: do not record the operations of a program that
 fails to compile

A second evaluation of a program that was rejected succeeded with the operations
before the invalid one.
---
 acc/pass/eval.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/acc/pass/eval.go b/acc/pass/eval.go
index 2dd85b1..f11d6d9 100644
--- a/acc/pass/eval.go
+++ b/acc/pass/eval.go
@@ -15,18 +15,19 @@ func Compile(p *ir.Program) error {
 		return nil
 	}
 
-	p.Program = addchain.Program{}
+	// Only recorded on success, since it will not be computed again.
+	c := addchain.Program{}
 	for _, i := range p.Instructions {
 		var out int
 		var err error
 
 		switch op := i.Op.(type) {
 		case ir.Add:
-			out, err = p.Program.Add(op.X.Index, op.Y.Index)
+			out, err = c.Add(op.X.Index, op.Y.Index)
 		case ir.Double:
-			out, err = p.Program.Double(op.X.Index)
+			out, err = c.Double(op.X.Index)
 		case ir.Shift:
-			out, err = p.Program.Shift(op.X.Index, op.S)
+			out, err = c.Shift(op.X.Index, op.S)
 		default:
 			return errutil.UnexpectedType(op)
 		}
@@ -39,6 +40,8 @@ func Compile(p *ir.Program) error {
 		}
 	}
 
+	p.Program = c
+
 	return nil
 }
 
-- 
2.43.0


From b547092ea244b13194ea3070fd6866adb2de7e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:44 +0000
Subject: [PATCH 17/17] fix: keep names unique when building a program that has
 names of its own

The builder names elements by value (_b, xN) or index (iN). A program that came
from a script can already use such a name for another element, and then the
built script, for example the output of addchain fmt -b, defined one name twice
and was rejected by the tool itself.
---
 acc/build.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/acc/build.go b/acc/build.go
index 29f8448..c7a462f 100644
--- a/acc/build.go
+++ b/acc/build.go
@@ -38,6 +38,7 @@ type builder struct {
 	chain *ast.Chain
 	prog  *ir.Program
 	expr  map[int]ast.Expr
+	used  map[string]bool // names of statements so far
 }
 
 func newbuilder(p *ir.Program) *builder {
@@ -45,6 +46,7 @@ func newbuilder(p *ir.Program) *builder {
 		chain: &ast.Chain{},
 		prog:  p,
 		expr:  map[int]ast.Expr{},
+		used:  map[string]bool{},
 	}
 }
 
@@ -139,7 +141,9 @@ func (b *builder) add(a ir.Add) (ast.Expr, error) {
 }
 
 func (b *builder) commit(op *ir.Operand) {
-	name := ast.Identifier(b.name(op))
+	id := b.name(op)
+	b.used[id] = true
+	name := ast.Identifier(id)
 	stmt := ast.Statement{
 		Name: name,
 		Expr: b.operand(op),
@@ -149,12 +153,17 @@ func (b *builder) commit(op *ir.Operand) {
 }
 
 // name returns the name for this operand. This is the identifier if available,
-// otherwise a sensible default based on the index.
+// otherwise a sensible default based on the index. Names that a statement already
+// has, which is possible if the program came with names of its own, are avoided.
 func (b *builder) name(op *ir.Operand) string {
-	if op.Identifier != "" {
+	if op.Identifier != "" && !b.used[op.Identifier] {
 		return op.Identifier
 	}
-	return fmt.Sprintf("i%d", op.Index)
+	name := fmt.Sprintf("i%d", op.Index)
+	for b.used[name] {
+		name += "_"
+	}
+	return name
 }
 
 func (b *builder) operand(op *ir.Operand) ast.Expr {
-- 
2.43.0

