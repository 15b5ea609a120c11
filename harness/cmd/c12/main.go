// C12: parallel execution equals sequential execution, in order, under every
// schedule.
package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"log"
	"math"
	"math/big"
	"os"
	"reflect"
	"runtime"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/mmcloughlin/addchain"
	"github.com/mmcloughlin/addchain/alg"
	"github.com/mmcloughlin/addchain/alg/contfrac"
	"github.com/mmcloughlin/addchain/alg/dict"
	"github.com/mmcloughlin/addchain/alg/ensemble"
	"github.com/mmcloughlin/addchain/alg/exec"
	"github.com/mmcloughlin/addchain/alg/heuristic"
	"github.com/mmcloughlin/addchain/alg/opt"
	"pgregory.net/rapid"

	"github.com/mmcloughlin/addchain/verif/algs"
	"github.com/mmcloughlin/addchain/verif/cli"
	"github.com/mmcloughlin/addchain/verif/gens"
	"github.com/mmcloughlin/addchain/verif/pbt"
	"github.com/mmcloughlin/addchain/verif/ref"
)

// sched is one run of the executor under a schedule owned by the harness.
//
// Every algorithm passes gates, at which it waits until the harness lets it go.
// The harness acts only when nothing else can run (every goroutine of the run is
// blocked), so the schedule is a function of Choices.
type sched struct {
	Target *big.Int `json:"target"`
	// Algs describes the algorithms; see (*harness).algorithm. An entry "=k" is the
	// very same algorithm value as entry k.
	Algs  []string `json:"algs"`
	Limit int      `json:"limit"`
	// Log is "", "plain" (a logger without gates) or "gates" (gates wherever the
	// executor formats a log message).
	Log string `json:"log,omitempty"`
	// Choices picks, at each step, the waiting gate to open: c < 0 opens the first
	// -c gates at once. After the end of the list: the first gate.
	Choices []int `json:"choices,omitempty"`
	// Again repeats the run on the same executor with another limit.
	Again int `json:"again,omitempty"`

	taken  []int // choices made
	widths []int // gates that were waiting at each step
}

// waiter at a gate.
type waiter struct {
	key  int
	name string
	open chan bool
}

type harness struct {
	mu       sync.Mutex
	waiting  []*waiter
	gates    int
	running  int
	most     int
	finished int
	started  int
	free     bool // gates are open
	logGates bool
}

const maxGates = 60

func (h *harness) gate(key int, name string) {
	h.mu.Lock()
	if h.free || h.gates >= maxGates {
		h.mu.Unlock()
		return
	}
	h.gates++
	w := &waiter{key, name, make(chan bool)}
	h.waiting = append(h.waiting, w)
	h.mu.Unlock()
	<-w.open
}

// ctl is an algorithm with gates at its start and end.
type ctl struct {
	key   int
	name  string
	h     *harness
	inner alg.ChainAlgorithm
}

func (c *ctl) String() string {
	if c.h != nil && c.h.logGates {
		c.h.gate(c.key, "log")
	}
	return c.name
}

func (c *ctl) FindChain(n *big.Int) (addchain.Chain, error) {
	h := c.h
	h.mu.Lock()
	h.started++
	h.running++
	h.most = max(h.most, h.running)
	h.mu.Unlock()
	h.gate(c.key, "start")
	r, err := c.inner.FindChain(n)
	h.gate(c.key, "end")
	h.mu.Lock()
	h.running--
	h.finished++
	h.mu.Unlock()
	return r, err
}

// fake algorithms return a fixed result.
type fake struct {
	kind    string
	variant int
}

func (f fake) String() string { return f.kind }

var errFake = errors.New("fake failure")

func (f fake) FindChain(n *big.Int) (addchain.Chain, error) {
	c := addchain.Chain{}
	if near := gens.Near(n); f.kind == "near" && len(near) > 0 {
		// A chain for a number that is almost n.
		if n = near[f.variant*5%len(near)]; n.Sign() <= 0 {
			n = big.NewInt(1)
		}
	}
	// A chain for n, joined with 1..2+variant.
	for i := n.BitLen() - 1; i >= 0; i-- {
		p := new(big.Int).Rsh(n, uint(i))
		c = append(c, p)
		if i > 0 {
			c = append(c, new(big.Int).Lsh(p, 1))
		}
	}
	for v := 1; v <= 2+f.variant; v++ {
		if x := big.NewInt(int64(v)); x.Cmp(n) < 0 {
			c = append(c, x)
		}
	}
	slices.SortFunc(c, (*big.Int).Cmp)
	c = slices.CompactFunc(c, func(a, b *big.Int) bool { return a.Cmp(b) == 0 })
	switch f.kind {
	case "ok", "near":
		return c, nil
	case "err":
		return nil, fmt.Errorf("failure %d: %w", f.variant, errFake)
	case "both":
		return c, errFake
	case "nil":
		return nil, nil
	case "empty":
		return addchain.Chain{}, nil
	case "invalid":
		return addchain.Chain{big.NewInt(1), big.NewInt(3), n}, nil
	case "other":
		return addchain.Chain{big.NewInt(1), big.NewInt(2), big.NewInt(4)}, nil
	}
	panic("fake " + f.kind)
}

var fakes = []string{"ok", "err", "both", "nil", "empty", "invalid", "other", "near"}

// Components with gates: real algorithms that can be interrupted between the calls
// of their parts.
type gSeq struct {
	alg.SequenceAlgorithm
	h *harness
}

func (g gSeq) FindSequence(ts []*big.Int) (addchain.Chain, error) {
	g.h.gate(1000, "before sequence")
	c, err := g.SequenceAlgorithm.FindSequence(ts)
	g.h.gate(1001, "after sequence")
	return c, err
}

type gDec struct {
	dict.Decomposer
	h *harness
}

func (g gDec) Decompose(x *big.Int) dict.Sum {
	g.h.gate(1002, "before decompose")
	s := g.Decomposer.Decompose(x)
	g.h.gate(1003, "after decompose")
	return s
}

type gHeur struct {
	heuristic.Heuristic
	h *harness
}

func (g gHeur) Suggest(f []*big.Int, t *big.Int) []*big.Int {
	s := g.Heuristic.Suggest(f, t)
	g.h.gate(1004, "after suggest")
	return s
}

type gStrat struct {
	contfrac.Strategy
	h *harness
}

func (g gStrat) K(n *big.Int) []*big.Int {
	k := g.Strategy.K(n)
	g.h.gate(1005, "after strategy")
	return k
}

// gChain is an algorithm with gates of its own, for wrapping in others.
type gChain struct {
	alg.ChainAlgorithm
	h *harness
}

func (g gChain) FindChain(n *big.Int) (addchain.Chain, error) {
	c, err := g.ChainAlgorithm.FindChain(n)
	g.h.gate(1006, "inside")
	return c, err
}

// reals names the real algorithms with gates.
var reals = []string{"dict-fw", "dict-sw", "dict-hy", "dict-rl", "dict-cf", "runs", "runs-cf", "seq-heur", "seq-cf", "opt", "ens"}

// algorithm i of kind s. With h == nil there are no gates.
func (h *harness) algorithm(s string, i int, shared map[string]alg.SequenceAlgorithm) alg.ChainAlgorithm {
	if slices.Contains(fakes, s) {
		return fake{s, i}
	}
	seq := func(name string) alg.SequenceAlgorithm {
		if shared != nil && shared[name] != nil {
			return shared[name]
		}
		var a alg.SequenceAlgorithm
		switch {
		case h == nil:
			a = algs.Seq(name)
		case name == "h:halving,delta":
			a = heuristic.NewAlgorithm(gHeur{heuristic.UseFirst(heuristic.Halving{}, heuristic.DeltaLargest{}), h})
		case name == "h:halving,approx":
			a = heuristic.NewAlgorithm(heuristic.UseFirst(heuristic.Halving{}, gHeur{heuristic.Approximation{}, h}))
		default:
			a = contfrac.NewAlgorithm(gStrat{algs.Strategy(name), h})
		}
		if h != nil {
			a = gSeq{a, h}
		}
		if shared != nil {
			shared[name] = a
		}
		return a
	}
	dec := func(d dict.Decomposer) dict.Decomposer {
		if h == nil {
			return d
		}
		return gDec{d, h}
	}
	inside := func(a alg.ChainAlgorithm) alg.ChainAlgorithm {
		if h == nil {
			return a
		}
		return gChain{a, h}
	}
	k := uint(2 + i%4)
	switch s {
	case "dict-fw":
		return dict.NewAlgorithm(dec(dict.FixedWindow{K: k}), seq("h:halving,delta"))
	case "dict-sw":
		return dict.NewAlgorithm(dec(dict.SlidingWindow{K: k}), seq("h:halving,delta"))
	case "dict-hy":
		return dict.NewAlgorithm(dec(dict.Hybrid{K: k, T: 8}), seq("h:halving,approx"))
	case "dict-rl":
		return dict.NewAlgorithm(dec(dict.RunLength{T: 2 * k}), seq("h:halving,approx"))
	case "dict-cf":
		return dict.NewAlgorithm(dec(dict.SlidingWindow{K: k}), seq("cf:dichotomic"))
	case "runs":
		return dict.NewRunsAlgorithm(seq("h:halving,delta"))
	case "runs-cf":
		return dict.NewRunsAlgorithm(seq("cf:binary"))
	case "seq-heur":
		return alg.AsChainAlgorithm(seq("h:halving,delta"))
	case "seq-cf":
		return alg.AsChainAlgorithm(seq("cf:co_binary"))
	case "opt":
		return opt.Algorithm{Algorithm: inside(dict.NewAlgorithm(dec(dict.SlidingWindow{K: k}), seq("h:halving,approx")))}
	case "ens":
		as := ensemble.Ensemble()
		if len(as) > 0 {
			return as[(i*37)%len(as)]
		}
	}
	return nil
}

// sameAlgorithm is identity where values can be compared.
func sameAlgorithm(a, b alg.ChainAlgorithm) bool {
	if a == nil || b == nil || reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	if reflect.TypeOf(a).Comparable() && reflect.ValueOf(a).Comparable() {
		return a == b
	}
	return a.String() == b.String()
}

func resultDiff(got, want exec.Result, a alg.ChainAlgorithm) error {
	if got.Target == nil || got.Target.Cmp(want.Target) != 0 {
		return fmt.Errorf("target %v, want %v", got.Target, want.Target)
	}
	if !sameAlgorithm(got.Algorithm, a) {
		return fmt.Errorf("algorithm %v, want %v", got.Algorithm, a)
	}
	if (got.Err == nil) != (want.Err == nil) || got.Err != nil && got.Err.Error() != want.Err.Error() {
		return fmt.Errorf("error %v, want %v", got.Err, want.Err)
	}
	if !slices.EqualFunc(got.Chain, want.Chain, func(a, b *big.Int) bool { return a.Cmp(b) == 0 }) {
		return fmt.Errorf("chain %v, want %v", got.Chain, want.Chain)
	}
	if !slices.Equal(got.Program, want.Program) {
		return fmt.Errorf("program %v, want %v", got.Program, want.Program)
	}
	return nil
}

// quiet waits until every goroutine started since base is blocked. The snapshot of
// all goroutine states is atomic, so nothing can happen after it before the caller
// acts. (State "semacquire" is that of a goroutine that starts a garbage
// collection while the snapshot is taken.) A goroutine that sleeps is not blocked; after many rounds it is taken as such.
func quiet(base map[string]bool, buf []byte) {
	for round := 0; ; round++ {
		for i := 0; i < 3; i++ {
			runtime.Gosched()
		}
		n := runtime.Stack(buf, true)
		if n == len(buf) {
			pbt.HarnessFailure("goroutine dump too large")
		}
		busy, asleep := false, false
		goroutines(buf[:n], func(id, state string) {
			if base[id] {
				return
			}
			switch {
			case state == "sleep":
				asleep = true
			case strings.HasPrefix(state, "chan "), strings.HasPrefix(state, "select"), strings.HasPrefix(state, "sync."):
			default:
				busy = true
			}
		})
		if !busy && !asleep {
			return
		}
		if !busy && round > 2000 {
			return
		}
		if asleep || round > 200 {
			time.Sleep(time.Millisecond)
		}
	}
}

// goroutines parses a dump; the first one, the caller, is skipped.
func goroutines(dump []byte, f func(id, state string)) {
	first := true
	for len(dump) > 0 {
		line := dump
		if i := bytes.IndexByte(dump, '\n'); i >= 0 {
			line = dump[:i]
		}
		if bytes.HasPrefix(line, []byte("goroutine ")) && !first {
			rest := line[len("goroutine "):]
			sp := bytes.IndexByte(rest, ' ')
			open, end := bytes.IndexByte(rest, '['), bytes.LastIndexByte(rest, ']')
			if sp > 0 && open > 0 && end > open {
				state := string(rest[open+1 : end])
				if i := strings.IndexByte(state, ','); i >= 0 {
					state = state[:i]
				}
				f(string(rest[:sp]), state)
			}
		}
		first = false
		i := bytes.Index(dump, []byte("\n\ngoroutine "))
		if i < 0 {
			return
		}
		dump = dump[i+2:]
	}
}

var stackBuf = make([]byte, 1<<23)

func (s *sched) valid() bool {
	if s.Target == nil || s.Target.Sign() <= 0 || s.Limit < 1 || len(s.Algs) > 3000 || s.Again < 0 {
		return false
	}
	for i, a := range s.Algs {
		if k, ok := strings.CutPrefix(a, "="); ok {
			var n int
			if c, err := fmt.Sscan(k, &n); c != 1 || err != nil || n < 0 || n >= i || strings.HasPrefix(s.Algs[n], "=") {
				return false
			}
		} else if !slices.Contains(fakes, a) && !slices.Contains(reals, a) {
			return false
		}
	}
	return true
}

func (s *sched) Check(r *pbt.Rec) error {
	if !s.valid() {
		return pbt.ErrInvalid
	}
	s.taken, s.widths = nil, nil
	p := exec.NewParallel()
	if err := s.once(r, p, s.Limit); err != nil {
		return err
	}
	if s.Again > 0 {
		r.Evals(1)
		if err := s.once(r, p, s.Again); err != nil {
			return fmt.Errorf("second run on the same executor, limit %d: %v", s.Again, err)
		}
	}
	if len(s.Algs) >= 2 && len(s.widths) >= 2 && slices.Max(s.widths) >= 2 {
		r.NonTrivial()
	}
	r.Class("limit:%d", min(s.Limit, 9))
	return nil
}

// alone checks the result of one algorithm against what the algorithm returns.
func alone(r exec.Result, n *big.Int, a alg.ChainAlgorithm) error {
	c, err := a.FindChain(new(big.Int).Set(n))
	ok := err == nil && ref.CheckChain(c) == nil && c[len(c)-1].Cmp(n) == 0
	if ok != (r.Err == nil) {
		return fmt.Errorf("algorithm returns %v, %v, the result is %v, %v", c, err, r.Chain, r.Err)
	}
	if r.Target == nil || r.Target.Cmp(n) != 0 || r.Algorithm == nil || r.Algorithm.String() != a.String() {
		return fmt.Errorf("result is for %v, %v", r.Target, r.Algorithm)
	}
	if !ok {
		return nil
	}
	if !ref.Equal(r.Chain, c) {
		return fmt.Errorf("algorithm returns %v, the result is %v", c, r.Chain)
	}
	var ops []ref.Op
	for _, op := range r.Program {
		ops = append(ops, ref.Op{I: op.I, J: op.J})
	}
	v, err := ref.Eval(ops)
	if err != nil || !ref.Equal(v, c) {
		return fmt.Errorf("the operations of the result give %v, %v instead of %v", v, err, c)
	}
	return nil
}

func (s *sched) once(r *pbt.Rec, p *exec.Parallel, limit int) error {
	n := new(big.Int).Set(s.Target)
	h := &harness{logGates: s.Log == "gates"}
	count := len(s.Algs)
	as := make([]alg.ChainAlgorithm, count)
	want := make([]exec.Result, count)
	shared := map[string]alg.SequenceAlgorithm{}
	for i, name := range s.Algs {
		var k int
		if c, _ := fmt.Sscanf(name, "=%d", &k); c == 1 {
			as[i], want[i] = as[k], want[k]
			continue
		}
		plain := (*harness)(nil).algorithm(name, i, nil)
		inner := h.algorithm(name, i, shared)
		if plain == nil || inner == nil {
			return pbt.ErrInvalid
		}
		want[i] = exec.Execute(new(big.Int).Set(s.Target), plain)
		if err := alone(want[i], s.Target, plain); err != nil {
			return fmt.Errorf("executing %s alone: %v", name, err)
		}
		as[i] = &ctl{i, fmt.Sprintf("%d:%s", i, name), h, inner}
	}

	switch s.Log {
	case "":
	case "plain", "gates":
		p.SetLogger(log.New(new(bytes.Buffer), "", 0))
	default:
		return pbt.ErrInvalid
	}
	p.SetConcurrency(limit)

	base := map[string]bool{}
	for {
		k := runtime.Stack(stackBuf, true)
		if k < len(stackBuf) {
			goroutines(stackBuf[:k], func(id, _ string) { base[id] = true })
			break
		}
		pbt.HarnessFailure("goroutine dump too large")
	}
	type ret struct {
		rs       []exec.Result
		finished int
		pan      any
	}
	done := make(chan ret, 1)
	list := slices.Clone(as)
	go func() {
		var q ret
		defer func() {
			q.pan = recover()
			done <- q
		}()
		rs := p.Execute(n, list)
		h.mu.Lock()
		q.finished = h.finished
		h.mu.Unlock()
		q.rs = rs
	}()
	// Whatever happens, let everything end.
	defer func() {
		h.mu.Lock()
		h.free = true
		ws := h.waiting
		h.waiting = nil
		h.mu.Unlock()
		for _, w := range ws {
			close(w.open)
		}
	}()

	var q *ret
	var early error
	for {
		quiet(base, stackBuf)
		if n.Cmp(s.Target) != 0 {
			return fmt.Errorf("the shared target was changed from %v to %v", s.Target, n)
		}
		select {
		case v := <-done:
			q = &v
		default:
		}
		h.mu.Lock()
		most, running := h.most, h.running
		ws := h.waiting
		h.mu.Unlock()
		if most > limit {
			return fmt.Errorf("%d algorithms ran at once, limit %d (%s)", most, limit, s.history())
		}
		if q != nil && q.pan != nil {
			return fmt.Errorf("Execute panics: %v (%s)", q.pan, s.history())
		}
		if q != nil && early == nil && q.finished < count {
			return fmt.Errorf("Execute returned after %d of %d algorithms had finished (%s)", q.finished, count, s.history())
		}
		if len(ws) == 0 {
			if q == nil {
				return fmt.Errorf("Execute does not return: every goroutine is blocked, %d algorithms running, %d finished of %d (%s)", running, h.finished, count, s.history())
			}
			break
		}
		slices.SortStableFunc(ws, func(a, b *waiter) int { return a.key - b.key })
		c := 0
		if k := len(s.taken); k < len(s.Choices) {
			c = s.Choices[k]
		}
		s.taken = append(s.taken, c)
		s.widths = append(s.widths, len(ws))
		var opened []*waiter
		var rest []*waiter
		if c < 0 {
			m := min(-c, len(ws))
			opened, rest = ws[:m], slices.Clone(ws[m:])
		} else {
			c %= len(ws)
			opened = []*waiter{ws[c]}
			rest = append(slices.Clone(ws[:c]), ws[c+1:]...)
		}
		h.mu.Lock()
		// Nothing else runs: h.waiting is still ws.
		h.waiting = rest
		h.mu.Unlock()
		for _, w := range opened {
			close(w.open)
		}
	}
	// All is blocked or gone; h needs no lock.
	if len(q.rs) != count {
		return fmt.Errorf("%d results for %d algorithms (%s)", len(q.rs), count, s.history())
	}
	for i := range as {
		if err := resultDiff(q.rs[i], want[i], as[i]); err != nil {
			return fmt.Errorf("result %d: %v (%s)", i, err, s.history())
		}
	}
	if n.Cmp(s.Target) != 0 {
		return fmt.Errorf("the shared target was changed from %v to %v", s.Target, n)
	}
	if h.running != 0 {
		return fmt.Errorf("%d algorithms still running (%s)", h.running, s.history())
	}
	return nil
}

func (s *sched) history() string {
	return fmt.Sprintf("algorithms %v, limit %d, choices %v among %v", s.Algs, s.Limit, s.taken, s.widths)
}

func (s *sched) Shrinks() []pbt.Case {
	var out []pbt.Case
	edit := func(f func(t *sched)) {
		t := &sched{Target: s.Target, Algs: slices.Clone(s.Algs), Limit: s.Limit, Log: s.Log, Choices: slices.Clone(s.Choices), Again: s.Again}
		f(t)
		if t.valid() {
			out = append(out, t)
		}
	}
	if s.Again > 0 {
		edit(func(t *sched) { t.Again = 0 })
		edit(func(t *sched) { t.Again, t.Limit = 0, s.Again })
	}
	if s.Log != "" {
		edit(func(t *sched) { t.Log = "" })
	}
	for i := range s.Algs {
		if i == len(s.Algs)-1 || !strings.Contains(strings.Join(s.Algs, " "), "=") {
			edit(func(t *sched) { t.Algs = slices.Delete(t.Algs, i, i+1) })
		}
		if s.Algs[i] != "ok" {
			edit(func(t *sched) { t.Algs[i] = "ok" })
		}
	}
	if s.Limit > 1 {
		edit(func(t *sched) { t.Limit = max(1, t.Limit/2) })
		edit(func(t *sched) { t.Limit-- })
	}
	if k := len(s.Choices); k > 0 {
		edit(func(t *sched) { t.Choices = nil })
		edit(func(t *sched) { t.Choices = t.Choices[:k/2] })
		edit(func(t *sched) { t.Choices = t.Choices[:k-1] })
		for i, c := range s.Choices {
			if c != 0 && k < 30 {
				edit(func(t *sched) { t.Choices[i] = 0 })
			}
		}
	}
	if s.Target.BitLen() > 5 {
		edit(func(t *sched) { t.Target = new(big.Int).Rsh(t.Target, 1) })
	}
	return out
}

// every runs a case under all schedules, depth first.
func every(e *pbt.Enum, algs []string, limit int, log string, target *big.Int) bool {
	var choices []int
	for {
		c := &sched{Target: target, Algs: algs, Limit: limit, Log: log, Choices: slices.Clone(choices)}
		if !e.Do(c) {
			return false
		}
		// Next schedule.
		choices = choices[:0]
		for i, w := range c.widths {
			x := 0
			if i < len(c.Choices) {
				x = c.Choices[i] % w
			}
			choices = append(choices, x)
		}
		k := len(choices) - 1
		for k >= 0 && choices[k]+1 >= c.widths[k] {
			k--
		}
		if k < 0 {
			return true
		}
		choices[k]++
		choices = choices[:k+1]
	}
}

// race runs real algorithms in a child process built with the race detector.
type race struct {
	Target *big.Int `json:"target"`
	// Whole ensemble, or the given configurations, the same values Copies times.
	Ensemble bool          `json:"ensemble,omitempty"`
	Configs  []algs.Config `json:"configs,omitempty"`
	Copies   int           `json:"copies,omitempty"`
	// Shared gives all configurations the same sequence algorithm values.
	Shared bool `json:"shared,omitempty"`
	Limit  int  `json:"limit"`
	Log    bool `json:"log,omitempty"`
	Twin   bool `json:"twin,omitempty"` // two executors at once on one target
	// OneExec lets the twins use one executor; Other is the second one's target, if it
	// has one of its own.
	OneExec bool     `json:"oneexec,omitempty"`
	Other   *big.Int `json:"other,omitempty"`
	// Spoil overwrites the results and executes again.
	Spoil bool `json:"spoil,omitempty"`
	// Rounds repeats the execution with freshly built algorithms.
	Rounds int    `json:"rounds,omitempty"`
	Procs  int    `json:"procs"`
	Note   string `json:"note,omitempty"`
}

func (c *race) list() []alg.ChainAlgorithm {
	var as []alg.ChainAlgorithm
	if c.Ensemble {
		as = ensemble.Ensemble()
	}
	shared := map[string]alg.SequenceAlgorithm{}
	for _, cfg := range c.Configs {
		if !cfg.InRange(c.Target) {
			return nil
		}
		a := cfg.Build()
		if c.Shared && cfg.Kind == "dict" {
			if shared[cfg.Seq] == nil {
				shared[cfg.Seq] = algs.Seq(cfg.Seq)
			}
			a = dict.NewAlgorithm(cfg.D.Build(), shared[cfg.Seq])
			if cfg.Opt {
				a = opt.Algorithm{Algorithm: a}
			}
		}
		if a == nil {
			return nil
		}
		as = append(as, a)
	}
	one := slices.Clone(as)
	for k := 1; k < c.Copies; k++ {
		as = append(as, one...)
	}
	return as
}

// nowhere swallows log messages (with io.Discard, they would not be formatted).
type nowhere struct{}

func (nowhere) Write(p []byte) (int, error) { return len(p), nil }

// probe counts running algorithms without synchronising them.
type probe struct {
	alg.ChainAlgorithm
	running, most, finished *atomic.Int64
}

func (p *probe) FindChain(n *big.Int) (addchain.Chain, error) {
	defer p.finished.Add(1)
	defer p.running.Add(-1)
	if k := p.running.Add(1); k > p.most.Load() {
		p.most.Store(k)
	}
	return p.ChainAlgorithm.FindChain(n)
}

// solo executes every algorithm alone; the results share nothing with later ones.
func (c *race) solo(n *big.Int) []exec.Result {
	var want []exec.Result
	for _, a := range c.list() {
		r := exec.Execute(new(big.Int).Set(n), a)
		r.Target = new(big.Int).Set(n)
		r.Chain = ref.Clone(r.Chain)
		r.Program = slices.Clone(r.Program)
		want = append(want, r)
	}
	return want
}

// runAll is the body of the child.
func (c *race) runAll() error {
	targets := []*big.Int{c.Target}
	if c.Twin {
		targets = append(targets, c.Target)
		if c.Other != nil {
			targets[1] = c.Other
		}
	}
	var wants [][]exec.Result
	var ns []*big.Int
	for k, t := range targets {
		if k == 1 && t == targets[0] {
			wants = append(wants, wants[0])
			ns = append(ns, ns[0]) // the same object
			continue
		}
		wants = append(wants, c.solo(t))
		ns = append(ns, new(big.Int).Set(t))
	}
	rounds := max(c.Rounds, 1)
	if c.Spoil {
		rounds = max(rounds, 2)
	}
	executor := func() *exec.Parallel {
		p := exec.NewParallel()
		p.SetConcurrency(c.Limit)
		if c.Log {
			p.SetLogger(log.New(nowhere{}, "", 0))
		}
		return p
	}
	common := executor()
	for round := 0; round < rounds; round++ {
		results := make([][]exec.Result, len(targets))
		errs := make([]error, len(targets))
		var wg sync.WaitGroup
		for k := range targets {
			wg.Add(1)
			go func() {
				defer wg.Done()
				p := common
				if !c.OneExec {
					p = executor()
				}
				results[k], errs[k] = c.execute(p, ns[k], wants[k], !c.Ensemble || k == 1)
			}()
		}
		wg.Wait()
		for k, n := range ns {
			if n.Cmp(targets[k]) != 0 {
				return fmt.Errorf("the shared target was changed from %v to %v", targets[k], n)
			}
		}
		if err := errors.Join(errs...); err != nil {
			if round > 0 {
				return fmt.Errorf("after the results of an earlier execution were overwritten: %w", err)
			}
			return err
		}
		if !c.Spoil {
			continue
		}
		for _, rs := range results {
			for _, r := range rs {
				for i, x := range r.Chain {
					if !slices.Contains(ns, x) { // a chain may contain the target object itself
						x.SetInt64(int64(-7 - i))
					}
				}
				for i := range r.Chain {
					r.Chain[i] = nil
				}
				for i := range r.Program {
					r.Program[i] = addchain.Op{I: -1, J: -1}
				}
			}
		}
	}
	return nil
}

// execute runs everything through p.
func (c *race) execute(p *exec.Parallel, n *big.Int, want []exec.Result, probed bool) ([]exec.Result, error) {
	var running, most, finished atomic.Int64
	as := c.list()
	if probed {
		// Atomics order the executions, which hides races, so only some runs are probed.
		for i, a := range as {
			as[i] = &probe{a, &running, &most, &finished}
		}
	} else {
		finished.Store(int64(len(as)))
	}
	rs := p.Execute(n, as)
	if f := finished.Load(); f != int64(len(as)) {
		return nil, fmt.Errorf("Execute returned after %d of %d algorithms had finished", f, len(as))
	}
	if m := most.Load(); m > int64(c.Limit) {
		return nil, fmt.Errorf("%d algorithms ran at once, limit %d", m, c.Limit)
	}
	if len(rs) != len(want) {
		return nil, fmt.Errorf("%d results for %d algorithms", len(rs), len(want))
	}
	for i := range rs {
		if err := resultDiff(rs[i], want[i], as[i]); err != nil {
			return nil, fmt.Errorf("result %d: %v", i, err)
		}
	}
	return rs, nil
}

func (c *race) Check(r *pbt.Rec) error {
	if c.Target == nil || c.Target.Sign() <= 0 || c.Limit < 1 || c.Procs < 1 || c.Procs > 16 || c.Copies < 0 || c.Copies > 50 || c.Rounds < 0 || c.Rounds > 1000 {
		return pbt.ErrInvalid
	}
	if c.Other != nil && (c.Other.Sign() <= 0 || !c.Twin || c.Other.BitLen() > c.Target.BitLen()) {
		return pbt.ErrInvalid
	}
	as := c.list()
	if len(as) == 0 {
		return pbt.ErrInvalid
	}
	b, err := json.Marshal(c)
	if err != nil {
		pbt.HarnessFailure(err.Error())
	}
	res := cli.Run(os.Getenv("VERIF_RACE"), cli.Limits{CPU: 1200, MemMB: -1, Procs: c.Procs, Env: []string{"GORACE=halt_on_error=1 exitcode=66"}}, string(b), "race-child")
	r.Evals(len(as))
	if c.Note != "" {
		r.Class("family:%s", c.Note)
	}
	r.Class("limit:%s", sizeClass(c.Limit))
	if len(as) >= 2 && c.Limit >= 2 {
		r.NonTrivial()
	}
	switch {
	case res.Code == 0:
		return nil
	case res.Code == 66 || strings.Contains(res.Stderr, "WARNING: DATA RACE"):
		return fmt.Errorf("data race: %s", cli.Tail(res.Stderr, 3000))
	case res.Code == 1 && strings.HasPrefix(res.Stderr, "child: "):
		return errors.New(strings.TrimSpace(res.Stderr))
	case strings.Contains(res.Stderr, "ThreadSanitizer"):
		pbt.HarnessFailure(fmt.Sprint("race detector: ", res))
	}
	return fmt.Errorf("child: %v", res)
}

func sizeClass(n int) string {
	switch {
	case n == 1:
		return "1"
	case n < 8:
		return "2-7"
	case n < 100:
		return "8-99"
	}
	return ">=100"
}

func raceChild() {
	c := &race{}
	if err := json.NewDecoder(os.Stdin).Decode(c); err != nil {
		os.Exit(3)
	}
	if err := c.runAll(); err != nil {
		fmt.Fprintln(os.Stderr, "child:", err)
		os.Exit(1)
	}
}

func genSched(pool []string) func(t *rapid.T) pbt.Case {
	return func(t *rapid.T) pbt.Case {
		bits := gens.Pick(t, "bits", 6, 10, 20, 40, 64, 70, 130)
		n, _ := gens.Target(t, bits)
		s := &sched{Target: n, Log: gens.Pick(t, "log", "", "", "plain", "gates", "gates")}
		count := gens.Uni(t, "count", 0, gens.Pick(t, "max", 3, 6, 12))
		for i := 0; i < count; i++ {
			a := gens.Pick(t, "alg", pool...)
			if i > 0 && gens.Uni(t, "dup", 0, 9) == 0 {
				if k := gens.Uni(t, "of", 0, i-1); !strings.HasPrefix(s.Algs[k], "=") {
					a = fmt.Sprintf("=%d", k)
				}
			}
			s.Algs = append(s.Algs, a)
		}
		limit := func() int {
			if gens.Uni(t, "huge", 0, 11) == 0 {
				return gens.Pick(t, "hugelimit", 1000, 1<<16, 1<<31, 1<<40, math.MaxInt-1, math.MaxInt)
			}
			return gens.Uni(t, "limit", 1, count+2)
		}
		s.Limit = limit()
		if gens.Uni(t, "again", 0, 9) == 0 {
			s.Again = limit()
		}
		// Scheduling styles: uniform, first, last, round robin, bursts.
		r := gens.Rand(t)
		style := gens.Uni(t, "style", 0, 4)
		for k, steps := 0, count*6; k < steps; k++ {
			switch style {
			case 0:
				s.Choices = append(s.Choices, r.IntN(12))
			case 1:
				s.Choices = append(s.Choices, 0)
			case 2:
				s.Choices = append(s.Choices, 27719) // -1 modulo 2..12
			case 3:
				s.Choices = append(s.Choices, k)
			case 4:
				c := r.IntN(12)
				if r.IntN(3) == 0 {
					c = -1 - r.IntN(6)
				}
				s.Choices = append(s.Choices, c)
			}
		}
		return s
	}
}

func genConfig(t *rapid.T, bits int) algs.Config {
	k := uint(gens.Uni(t, "K", 1, 12))
	tt := uint(gens.Uni(t, "T", 0, 20))
	seqs := []string{"h:halving,delta", "h:halving,approx", "cf:binary", "cf:co_binary", "cf:dichotomic", "cf:sqrt", "h:(halving,delta)"}
	if gens.Uni(t, "all", 0, 2) == 0 {
		// Those for small inputs, too, where the target allows.
		c := algs.Config{Kind: gens.Pick(t, "smallkind", "dict", "runs", "seq"), Seq: gens.Pick(t, "seq", algs.SeqNames...), Opt: rapid.Bool().Draw(t, "opt")}
		if c.Kind == "dict" {
			c.D = &algs.Decomposer{M: gens.Pick(t, "m", "fw", "sw"), K: min(k, 5)}
		}
		if c.InRange(ref.Ones(uint(bits))) {
			return c
		}
	}
	d := &algs.Decomposer{M: gens.Pick(t, "m", "fw", "sw", "rl", "hy"), K: k, T: tt}
	switch gens.Uni(t, "kind", 0, 6) {
	case 0, 1, 2:
		return algs.Config{Kind: "dict", D: d, Seq: gens.Pick(t, "seq", seqs...), Opt: rapid.Bool().Draw(t, "opt")}
	case 3:
		return algs.Config{Kind: "runs", Seq: gens.Pick(t, "seq", seqs...), Opt: rapid.Bool().Draw(t, "opt")}
	case 4:
		return algs.Config{Kind: "seq", Seq: gens.Pick(t, "seq", seqs...), Opt: rapid.Bool().Draw(t, "opt")}
	case 5:
		return algs.Config{Kind: "rtl", Opt: rapid.Bool().Draw(t, "opt")}
	}
	return algs.Config{Kind: "ens", Ens: gens.Uni(t, "ens", 0, 199)}
}

func genRace(whole bool, maxBits int) func(t *rapid.T) pbt.Case {
	return func(t *rapid.T) pbt.Case {
		n, fam := gens.Target(t, gens.Pick(t, "bits", 10, 32, maxBits, maxBits))
		c := &race{Target: n, Note: fam, Ensemble: whole, Procs: gens.Pick(t, "procs", 2, 4, 8), Log: rapid.Bool().Draw(t, "log")}
		c.Limit = gens.Pick(t, "limit", 1000, 1000, 64, 8, 8, 4, 2, 1)
		c.Twin = gens.Uni(t, "twin", 0, 2) == 0
		if c.Twin {
			c.OneExec = rapid.Bool().Draw(t, "oneexec")
			if rapid.Bool().Draw(t, "other") {
				c.Other, _ = gens.Target(t, n.BitLen())
			}
		}
		c.Spoil = gens.Uni(t, "spoil", 0, 2) == 0
		if n.BitLen() <= 32 {
			c.Rounds = gens.Pick(t, "rounds", 1, 5, 20)
		}
		if !whole {
			for i, k := 0, gens.Uni(t, "configs", 1, 12); i < k; i++ {
				c.Configs = append(c.Configs, genConfig(t, n.BitLen()))
			}
			c.Copies = gens.Pick(t, "copies", 1, 2, 2, 4, 10)
			c.Shared = rapid.Bool().Draw(t, "shared")
		}
		return c
	}
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "race-child" {
		raceChild()
		return
	}
	target := big.NewInt(1000003)
	pbt.Main(&pbt.Spec{
		ID:   "C12",
		Rule: "A case is one run of the executor on a list of algorithms under a schedule chosen by the harness (algorithms stop at gates at their start and end, between the calls of their parts and where log messages are formatted; the next gate is opened only when every goroutine is blocked), or one run of real algorithms in a process built with the race detector. It is non-trivial when at least two algorithms are in the list and at least two gates were waiting at some step (schedules), or at least two algorithms may run at once (race). Oracle: count of running algorithms, of finished ones at the return, slot by slot equality with Execute alone, unchanged target, no blocked executor, no race report.",
		Assumptions: []string{
			"Algorithms that panic are outside the property (Execute alone panics, too).",
			"The race detector sees the executions that happened; it has no false positives on code without unsafe synchronisation.",
		},
		Kinds: map[string]func() pbt.Case{
			"sched": func() pbt.Case { return &sched{} },
			"race":  func() pbt.Case { return &race{} },
		},
		Sections: []pbt.Section{
			{Name: "all-completion-orders", Enum: func(e *pbt.Enum) {
				// All interleavings of the starts and ends.
				for n := 0; n <= pbt.Pick(e.Tier, 4, 5); n++ {
					for limit := 1; limit <= n+1; limit++ {
						for _, kinds := range [][]string{{"ok"}, {"ok", "err", "invalid", "other", "near"}, {"both", "ok", "nil", "empty"}, {"dict-sw", "=0", "ok"}} {
							var as []string
							for i := 0; i < n; i++ {
								as = append(as, kinds[i%len(kinds)])
							}
							if n == 5 && (limit == 4 || limit > 5 || kinds[0] != "ok") {
								continue
							}
							if kinds[0] == "dict-sw" && n > 2 {
								continue
							}
							if !e.Mine() {
								continue
							}
							if !every(e, as, limit, "", target) {
								return
							}
						}
					}
				}
			}},
			{Name: "all-log-interleavings", Enum: func(e *pbt.Enum) {
				for n := 1; n <= 3; n++ {
					for limit := 1; limit <= n+1; limit++ {
						if n == 3 && limit >= 3 && e.Tier == pbt.Quick {
							continue
						}
						for _, as := range [][]string{{"ok", "ok", "ok"}, {"ok", "err", "other"}} {
							if n == 3 && as[1] == "err" && e.Tier == pbt.Quick {
								continue
							}
							if !e.Mine() {
								continue
							}
							if !every(e, as[:n], limit, "gates", target) {
								return
							}
						}
					}
				}
			}},
			{Name: "many", CaseCPU: 600, Enum: func(e *pbt.Enum) {
				// As many algorithms as a counter in a byte, or some buffer, can hold.
				kinds := []string{"ok", "err", "ok", "other", "invalid"}
				for _, n := range pbt.Pick(e.Tier, []int{100, 255, 256, 257, 300, 513}, []int{33, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1025}) {
					for k, limit := range []int{1, 2, 7, n / 2, n - 1, n, n + 1, 255, 256, 257} {
						for style := 0; style < 3; style++ {
							if e.Tier == pbt.Quick && (n+k+style)%3 != 0 {
								continue
							}
							if !e.Mine() {
								continue
							}
							s := &sched{Target: target, Limit: limit, Log: []string{"", "plain"}[k%2]}
							for i := 0; i < n; i++ {
								s.Algs = append(s.Algs, kinds[i%len(kinds)])
								s.Choices = append(s.Choices, []int{0, -2, -1 - i%9, -n}[style+i%2])
							}
							for i := 0; i < 2*n; i++ {
								s.Choices = append(s.Choices, -n)
							}
							if !e.Do(s) {
								return
							}
						}
					}
				}
			}},
			{Name: "random-schedules", N: 8000, Gen: genSched(fakes)},
			{Name: "interrupted-algorithms", N: 4000, Gen: genSched(append(slices.Clone(reals), "ok", "err"))},
			{Name: "race-each", CaseCPU: 1500, Enum: func(e *pbt.Enum) {
				// Every sequence algorithm and decomposer of the library, twice at once.
				for i, q := range algs.SeqNames {
					for j, m := range []string{"fw", "sw", "rl", "hy"} {
						if e.Tier == pbt.Quick && (i+j)%4 > 1 {
							continue
						}
						c := &race{Target: new(big.Int).SetUint64(0xf37b_bfdf_ffe7_c00d), Note: q, Limit: 1000, Copies: 4, Procs: 8, Log: j == 3, Shared: j%2 == 1, Rounds: 12}
						b := uint(min(algs.SeqMaxBits(q), 10))
						d := &algs.Decomposer{M: m, K: b, T: b}
						if m == "fw" || m == "sw" {
							d.T = 0
						}
						for _, cfg := range []algs.Config{
							{Kind: "dict", D: d, Seq: q},
							{Kind: "dict", D: d, Seq: q, Opt: true},
							{Kind: "runs", Seq: q},
							{Kind: "seq", Seq: q},
							{Kind: "rtl"},
						} {
							if cfg.InRange(c.Target) {
								c.Configs = append(c.Configs, cfg)
							}
						}
						if e.Mine() && !e.Do(c) {
							return
						}
					}
				}
			}},
			{Name: "race-ensemble", N: 32, Seconds: 240, Gen: genRace(true, 64), CaseCPU: 1500},
			{Name: "race-configurations", N: 240, Seconds: 240, Gen: genRace(false, 200), CaseCPU: 1500},
		},
	})
}
