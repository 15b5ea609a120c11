// Package pbt is the runner shared by all checks: it generates cases (rapid or
// enumeration), runs their oracles in worker processes, shrinks and records
// failures, replays them and writes the evidence file.
package pbt

import (
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"pgregory.net/rapid"
)

// Tier of a run.
type Tier int

// Tiers.
const (
	Quick Tier = iota
	Thorough
)

func (t Tier) String() string {
	if t == Thorough {
		return "thorough"
	}
	return "quick"
}

// Pick returns q in the quick tier and t in the thorough one.
func Pick[T any](tier Tier, q, t T) T {
	if tier == Thorough {
		return t
	}
	return q
}

// Case is one generated input. Cases must be JSON-serialisable pointers to
// structs registered in the Spec; Check holds the whole oracle and must be a
// function of the case and the code under test only.
type Case interface {
	Check(r *Rec) error
}

// Shrinker is implemented by cases that can propose smaller cases; it is used
// after rapid's own shrinking.
type Shrinker interface{ Shrinks() []Case }

// Rec receives observations about one case.
type Rec struct {
	nontrivial bool
	classes    []string
	evals      int
	known      map[string]string
}

// NonTrivial marks the case as non-trivial by the rule of the spec.
func (r *Rec) NonTrivial() { r.nontrivial = true }

// Class counts the case in a class of the histogram.
func (r *Rec) Class(format string, args ...any) {
	if len(args) > 0 {
		format = fmt.Sprintf(format, args...)
	}
	r.classes = append(r.classes, format)
}

// Evals adds executions of the code under test beyond the first.
func (r *Rec) Evals(n int) { r.evals += n }

// Known reports a violation that is identified as the finding with this key.
// It is only excused when the committed known-findings file lists the key.
func (r *Rec) Known(key, what string) error {
	if _, ok := knownKeys[key]; !ok {
		return fmt.Errorf("%s (matches finding %q, which is not listed)", what, key)
	}
	if r.known == nil {
		r.known = map[string]string{}
	}
	r.known[key] = what
	return nil
}

// Section of a check: either Enum or Gen is set.
type Section struct {
	Name string
	// Enum enumerates cases; the runner calls it once per shard.
	Enum func(e *Enum)
	// Gen draws a case.
	Gen func(t *rapid.T) Case
	// N is the number of rapid cases in the quick tier.
	N int
	// Seconds per shard in the thorough tier (random sections), default 60.
	Seconds int
	// Shards to split the section in, default 8.
	Shards int
	// ThoroughOnly sections do not run in the quick tier.
	ThoroughOnly bool
	// CPU seconds one case may use before it is suspected to hang. Default 60.
	CaseCPU int
	// Exclusive sections run alone, one job at a time.
	Exclusive bool
	// Fuzz is the number of seconds of coverage-guided search in the thorough
	// tier (random sections only, 0 for none).
	Fuzz int
}

// Spec of a check.
type Spec struct {
	ID          string
	Rule        string
	Assumptions []string
	Kinds       map[string]func() Case
	Sections    []Section
	// Finish adds details to the coverage object.
	Finish func(cov map[string]any)
}

// Enum drives one shard of an enumeration.
type Enum struct {
	Tier     Tier
	Shard, N int
	counter  int
	stopped  bool
	run      func(Case) bool
}

// Mine reports whether the next work item belongs to this shard.
func (e *Enum) Mine() bool {
	e.counter++
	return (e.counter-1)%e.N == e.Shard
}

// Do runs a case; it returns false when enumeration must stop.
func (e *Enum) Do(c Case) bool {
	if e.stopped {
		return false
	}
	if !e.run(c) {
		e.stopped = true
	}
	return !e.stopped
}

// Stopped reports whether enumeration must stop.
func (e *Enum) Stopped() bool { return e.stopped }

// envelope is the serialised form of a case.
type envelope struct {
	Property string          `json:"property"`
	Section  string          `json:"section,omitempty"`
	Kind     string          `json:"kind"`
	Case     json.RawMessage `json:"case"`
	Error    string          `json:"error,omitempty"`
	Seed     int64           `json:"seed"`
	Tier     string          `json:"tier,omitempty"`
	Shard    int             `json:"shard"`
}

func (s *Spec) kindOf(c Case) string {
	t := fmt.Sprintf("%T", c)
	for k, f := range s.Kinds {
		if fmt.Sprintf("%T", f()) == t {
			return k
		}
	}
	panic("unregistered case kind " + t)
}

func (s *Spec) encode(section string, c Case, err string) []byte {
	raw, e := json.Marshal(c)
	if e != nil {
		panic(e)
	}
	b, e := json.MarshalIndent(envelope{Property: s.ID, Section: section, Kind: s.kindOf(c), Case: raw, Error: err, Seed: Seed()}, "", " ")
	if e != nil {
		panic(e)
	}
	return b
}

func (s *Spec) decode(b []byte) (Case, *envelope, error) {
	var env envelope
	if err := json.Unmarshal(b, &env); err != nil {
		return nil, nil, err
	}
	f, ok := s.Kinds[env.Kind]
	if !ok {
		return nil, nil, fmt.Errorf("unknown case kind %q", env.Kind)
	}
	c := f()
	if err := json.Unmarshal(env.Case, c); err != nil {
		return nil, nil, err
	}
	return c, &env, nil
}

// Seed of this run.
func Seed() int64 {
	var n int64 = 1
	if v := os.Getenv("VERIF_SEED"); v != "" {
		if _, err := fmt.Sscan(v, &n); err != nil {
			h := fnv.New64a()
			h.Write([]byte(v))
			n = int64(h.Sum64() >> 1)
		}
	}
	return n
}

// Mix derives a non-zero seed from the run's seed and labels.
func Mix(labels ...any) uint64 {
	h := fnv.New64a()
	fmt.Fprint(h, Seed())
	for _, l := range labels {
		fmt.Fprintf(h, "|%v", l)
	}
	v := h.Sum64()
	if v == 0 {
		v = 1
	}
	return v
}

var knownKeys = map[string]string{}

// loadKnown reads the committed known-findings file. Lines:
//
//	known: property=<id> key=<key> <what fails>
//	fixed: property=<id> <commit> <what failed>
//
// Fixed entries suppress nothing.
func loadKnown(id string) {
	b, err := os.ReadFile(Root() + "/known_findings.txt")
	if err != nil {
		return
	}
	for _, line := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(line, "known: property="+id+" key=")
		if !ok {
			continue
		}
		key, what, _ := strings.Cut(rest, " ")
		knownKeys[key] = what
	}
}

// Root is the /verif directory.
func Root() string {
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		return r
	}
	return "/verif"
}

// ErrInvalid is returned by Check for a case outside the quantifier (possible
// only in hand-edited replay files).
var ErrInvalid = errors.New("case outside the property's quantifier")

// PanicError is a recovered panic.
type PanicError struct {
	Value any
	Stack string
}

func (p *PanicError) Error() string {
	return fmt.Sprintf("panic: %v\n%s", p.Value, p.Stack)
}

// Catch runs f and converts a panic to an error.
func Catch(f func() error) (err error) {
	defer func() {
		if v := recover(); v != nil {
			err = &PanicError{Value: v, Stack: trimStack(string(debug.Stack()))}
		}
	}()
	return f()
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") && i+2 < len(lines) {
			lines = lines[i+2:]
			break
		}
	}
	if len(lines) > 24 {
		lines = lines[:24]
	}
	return strings.Join(lines, "\n")
}

// stats of a job or of a whole section.
type stats struct {
	Evals      int               `json:"evals"`
	Cases      int               `json:"cases"`
	NonTrivial int               `json:"nontrivial"`
	Classes    map[string]int    `json:"classes"`
	Samples    []json.RawMessage `json:"samples"`
	Known      map[string]string `json:"known"`
	Truncated  bool              `json:"truncated"`
	Hashes     []uint64          `json:"-"`
	Fail       json.RawMessage   `json:"fail,omitempty"`
	FailMsg    string            `json:"failmsg,omitempty"`
	Rounds     int               `json:"rounds"`
}

type job struct {
	section int
	shard   int
}

// runner executes cases of one job inside a worker process.
type runner struct {
	spec    *Spec
	sec     *Section
	tier    Tier
	st      *stats
	hash    bool
	journal *os.File
	wd      *watchdog
	seen    map[uint64]bool
	counted bool
}

func (r *runner) exec(c Case) error {
	if r.journal != nil {
		b := r.spec.encode(r.sec.Name, c, "")
		r.journal.Truncate(0)
		r.journal.WriteAt(b, 0)
	}
	r.wd.begin(c)
	rec := &Rec{evals: 1}
	err := Catch(func() error { return c.Check(rec) })
	r.wd.end()
	if errors.Is(err, ErrInvalid) {
		err = fmt.Errorf("harness error: generated %w", err)
	}
	r.st.Cases++
	r.st.Evals += rec.evals
	for _, cl := range rec.classes {
		r.st.Classes[cl]++
	}
	for k, v := range rec.known {
		r.st.Known[k] = v
	}
	if rec.nontrivial && err == nil {
		fresh := true
		if r.hash {
			b, _ := json.Marshal(c)
			h := fnv.New64a()
			h.Write(b)
			v := h.Sum64()
			if r.seen[v] {
				fresh = false
			} else {
				r.seen[v] = true
				r.st.Hashes = append(r.st.Hashes, v)
			}
		}
		if fresh {
			r.st.NonTrivial++
			n := r.st.NonTrivial
			// Samples: the 2nd, 20th, 200th, ... distinct case of the shard.
			if n == 2 || n == 20 || n == 200 || n == 2000 || n == 20000 {
				b, _ := json.Marshal(c)
				r.st.Samples = append(r.st.Samples, b)
			}
		}
	}
	return err
}

// tb adapts rapid to a plain program.
type tb struct {
	name   string
	failed bool
	log    []string
}

func (t *tb) Helper()      {}
func (t *tb) Name() string { return t.name }
func (t *tb) Logf(f string, a ...any) {
	if len(t.log) < 12 {
		t.log = append(t.log, fmt.Sprintf(f, a...))
	}
}
func (t *tb) Log(a ...any)              { t.Logf("%s", fmt.Sprint(a...)) }
func (t *tb) Skipf(f string, a ...any)  { t.Logf(f, a...); runtime.Goexit() }
func (t *tb) Skip(a ...any)             { t.Log(a...); runtime.Goexit() }
func (t *tb) SkipNow()                  { runtime.Goexit() }
func (t *tb) Errorf(f string, a ...any) { t.failed = true; t.Logf(f, a...) }
func (t *tb) Error(a ...any)            { t.failed = true; t.Log(a...) }
func (t *tb) Fatalf(f string, a ...any) { t.failed = true; t.Logf(f, a...); runtime.Goexit() }
func (t *tb) Fatal(a ...any)            { t.failed = true; t.Log(a...); runtime.Goexit() }
func (t *tb) FailNow()                  { t.failed = true; runtime.Goexit() }
func (t *tb) Fail()                     { t.failed = true }
func (t *tb) Failed() bool              { return t.failed }

// random runs a shard of a rapid section.
func (r *runner) random(shard, nshards int, deadline time.Time) {
	sec := r.sec
	rounds := 16
	per := (sec.N/nshards + rounds - 1) / rounds
	if per < 1 {
		per = 1
	}
	if r.tier == Quick {
		if rounds*per > sec.N/nshards+per {
			rounds = (sec.N/nshards + per - 1) / per
			if rounds < 1 {
				rounds = 1
			}
		}
	} else {
		rounds = 1 << 30
		if per < 8 {
			per = 8
		}
		secs := sec.Seconds
		if secs == 0 {
			secs = 60
		}
		if d := time.Now().Add(time.Duration(secs) * time.Second); d.Before(deadline) {
			deadline = d
		}
	}
	for round := 0; round < rounds; round++ {
		if round > 0 && time.Now().After(deadline) {
			r.st.Truncated = r.tier == Quick
			return
		}
		r.st.Rounds++
		if !r.rapidRound(Mix(r.spec.ID, sec.Name, shard, round, int(r.tier)), per) {
			return
		}
	}
}

// rapidRound runs one rapid.Check and reports whether it passed.
func (r *runner) rapidRound(seed uint64, checks int) bool {
	setFlag("rapid.checks", fmt.Sprint(checks))
	setFlag("rapid.seed", fmt.Sprint(seed))
	setFlag("rapid.nofailfile", "true")
	setFlag("rapid.shrinktime", Pick(r.tier, "15s", "60s"))
	t := &tb{name: "verif" + r.spec.ID}
	var last Case
	var lastErr error
	slow := false
	done := make(chan struct{})
	go func() {
		defer close(done)
		rapid.Check(t, func(rt *rapid.T) {
			c := r.sec.Gen(rt)
			start := time.Now()
			if err := r.exec(c); err != nil {
				last, lastErr = c, err
				if time.Since(start) > slowCase {
					slow = true
					runtime.Goexit() // no time for shrinking
				}
				rt.Fatalf("%v", firstLine(err))
			}
		})
	}()
	<-done
	if slow {
		r.report(last, lastErr)
		return false
	}
	if lastErr != nil {
		r.fail(last, lastErr)
		return false
	}
	if t.failed {
		// rapid itself failed: a generator panic or exhausted retries.
		fmt.Fprintf(os.Stderr, "rapid failure without failing case in %s/%s:\n%s\n", r.spec.ID, r.sec.Name, strings.Join(t.log, "\n"))
		os.Exit(exitHarness)
	}
	return true
}

func firstLine(err error) string {
	s := err.Error()
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	return s
}

// shrink greedily replaces a failing case by smaller failing ones.
func (r *runner) shrink(c Case, err error) (Case, error) {
	stop := time.Now().Add(Pick(r.tier, 15*time.Second, 60*time.Second))
	saved := *r.st
	defer func() { *r.st = saved }()
	r.st.Classes, r.st.Known = map[string]int{}, map[string]string{}
	for {
		s, ok := c.(Shrinker)
		if !ok {
			return c, err
		}
		next := false
		for _, d := range s.Shrinks() {
			if time.Now().After(stop) {
				return c, err
			}
			start := time.Now()
			e := r.exec(d)
			if time.Since(start) > slowCase {
				stop = start
			}
			if e != nil && !errors.Is(e, ErrInvalid) {
				c, err, next = d, e, true
				break
			}
		}
		if !next {
			return c, err
		}
	}
}

// slowCase is the time from which on a failing case is reported as it is.
const slowCase = 8 * time.Second

func (r *runner) fail(c Case, err error) {
	c, err = r.shrink(c, err)
	r.report(c, err)
}

func (r *runner) report(c Case, err error) {
	r.st.Fail = r.spec.encode(r.sec.Name, c, err.Error())
	r.st.FailMsg = err.Error()
}

func (r *runner) enum(shard, nshards int, deadline time.Time) {
	n := 0
	e := &Enum{Tier: r.tier, Shard: shard, N: nshards}
	e.run = func(c Case) bool {
		if n++; n%64 == 0 && time.Now().After(deadline) {
			r.st.Truncated = true
			return false
		}
		start := time.Now()
		if err := r.exec(c); err != nil {
			if time.Since(start) > slowCase {
				r.report(c, err)
			} else {
				r.fail(c, err)
			}
			return false
		}
		return true
	}
	r.sec.Enum(e)
}

func writeHashes(path string, hs []uint64) error {
	b := make([]byte, 8*len(hs))
	for i, h := range hs {
		binary.LittleEndian.PutUint64(b[8*i:], h)
	}
	return os.WriteFile(path, b, 0o644)
}

func readHashes(path string) []uint64 {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	hs := make([]uint64, len(b)/8)
	for i := range hs {
		hs[i] = binary.LittleEndian.Uint64(b[8*i:])
	}
	return hs
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// HarnessFailure ends the worker without a verdict.
func HarnessFailure(msg string) {
	fmt.Fprintln(os.Stderr, "harness failure:", msg)
	os.Exit(exitHarness)
}
