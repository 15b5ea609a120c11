package pbt

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
)

// Main is the entry point of every check program:
//
//	cNN run quick|thorough
//	cNN replay FILE
//	cNN job ... (internal)
func Main(spec *Spec) {
	if fuzzF != nil {
		fuzz(spec, fuzzF)
		return
	}
	testing.Init()
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: run quick|thorough, replay FILE")
		os.Exit(2)
	}
	args := os.Args
	os.Args = args[:1]
	flag.CommandLine.Parse(nil)
	loadKnown(spec.ID)
	switch args[1] {
	case "run":
		tier := Quick
		if args[2] == "thorough" {
			tier = Thorough
		}
		os.Exit(run(spec, tier))
	case "job":
		runJob(spec, args[2:])
	case "replay":
		os.Exit(replay(spec, args[2]))
	case "replay-child":
		os.Exit(replayChild(spec, args[2], args[3]))
	default:
		os.Exit(2)
	}
}

func limits(as uint64) {
	if raceEnabled {
		return
	}
	debug.SetMemoryLimit(3 << 30)
	// Only the soft limit: children built with the race detector need to lift it.
	var l syscall.Rlimit
	if syscall.Getrlimit(syscall.RLIMIT_AS, &l) == nil {
		l.Cur = min(as, l.Max)
		syscall.Setrlimit(syscall.RLIMIT_AS, &l)
	}
}

// job SECTION SHARD TIER OUT DEADLINE(unix) JOURNAL(0|1)
func runJob(spec *Spec, a []string) {
	si, _ := strconv.Atoi(a[0])
	shard, _ := strconv.Atoi(a[1])
	ti, _ := strconv.Atoi(a[2])
	out := a[3]
	dl, _ := strconv.ParseInt(a[4], 10, 64)
	limits(12 << 30)
	sec := &spec.Sections[si]
	r := &runner{spec: spec, sec: sec, tier: Tier(ti), hash: sec.Gen != nil, seen: map[uint64]bool{}}
	r.st = &stats{Classes: map[string]int{}, Known: map[string]string{}}
	if a[5] == "1" {
		f, err := os.Create(out + ".journal")
		if err != nil {
			panic(err)
		}
		r.journal = f
	}
	r.wd = newWatchdog(spec, sec, out+".suspect")
	go r.wd.loop()
	deadline := time.Unix(dl, 0)
	if sec.Enum != nil {
		r.enum(shard, sec.shards(), deadline)
	} else {
		r.random(shard, sec.shards(), deadline)
	}
	b, err := json.Marshal(r.st)
	if err != nil {
		panic(err)
	}
	if err := writeHashes(out+".hashes", r.st.Hashes); err != nil {
		panic(err)
	}
	if err := os.WriteFile(out+".json", b, 0o644); err != nil {
		panic(err)
	}
}

func newWatchdog(spec *Spec, sec *Section, path string) *watchdog {
	cpu := 60
	name := ""
	if sec != nil {
		name = sec.Name
		if sec.CaseCPU > 0 {
			cpu = sec.CaseCPU
		}
	}
	return &watchdog{
		spec: spec, section: name, path: path,
		limit:   time.Duration(cpu) * time.Second,
		idleMax: 90 * time.Second,
		rssMax:  5 << 30,
	}
}

func (s *Section) shards() int {
	if s.Shards > 0 {
		return s.Shards
	}
	return 8
}

type outcome struct {
	st      *stats
	died    bool
	suspect []byte
	stderr  string
	status  string
	harness bool
}

func runOne(spec *Spec, tier Tier, dir string, j job, deadline time.Time, journal bool, procs *procSet) outcome {
	base := filepath.Join(dir, fmt.Sprintf("s%d-%d", j.section, j.shard))
	jn := "0"
	if journal {
		jn = "1"
		base += "-j"
	}
	cmd := exec.Command(os.Args[0], "job", strconv.Itoa(j.section), strconv.Itoa(j.shard), strconv.Itoa(int(tier)), base, strconv.FormatInt(deadline.Unix(), 10), jn)
	var stderr bytes.Buffer
	cmd.Stdout = &stderr
	cmd.Stderr = &stderr
	cmd.Env = append(os.Environ(), "GOMAXPROCS="+jobProcs(), "GOTRACEBACK=all")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	if !procs.start(cmd) {
		return outcome{status: "cancelled"}
	}
	err := cmd.Wait()
	procs.remove(cmd)
	o := outcome{stderr: stderr.String()}
	if len(o.stderr) > 6000 {
		o.stderr = o.stderr[:3000] + "\n...\n" + o.stderr[len(o.stderr)-3000:]
	}
	if err != nil {
		o.died = true
		o.status = err.Error()
		if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == exitSuspect {
			o.suspect, _ = os.ReadFile(base + ".suspect")
		} else if ok && ee.ExitCode() == exitHarness {
			o.harness = true
		} else if journal {
			o.suspect, _ = os.ReadFile(base + ".journal")
		}
		return o
	}
	b, err := os.ReadFile(base + ".json")
	if err != nil {
		o.died = true
		o.status = err.Error()
		return o
	}
	st := &stats{}
	if err := json.Unmarshal(b, st); err != nil {
		o.died = true
		o.status = err.Error()
		return o
	}
	st.Hashes = readHashes(base + ".hashes")
	os.Remove(base + ".hashes")
	os.Remove(base + ".json")
	o.st = st
	return o
}

func jobProcs() string {
	if v := os.Getenv("VERIF_JOBPROCS"); v != "" {
		return v
	}
	return "2"
}

// procSet tracks worker processes so that they can be stopped.
type procSet struct {
	mu      sync.Mutex
	m       map[*exec.Cmd]bool
	stopped bool
}

func (p *procSet) start(c *exec.Cmd) bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.stopped {
		return false
	}
	if err := c.Start(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return false
	}
	p.m[c] = true
	return true
}

func (p *procSet) remove(c *exec.Cmd) {
	p.mu.Lock()
	delete(p.m, c)
	p.mu.Unlock()
}

func (p *procSet) stop() {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.stopped = true
	for c := range p.m {
		syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
	}
}

type sectionStats struct {
	stats
	distinct map[uint64]bool
	jobs     int
}

func run(spec *Spec, tier Tier) int {
	start := time.Now()
	dir, err := os.MkdirTemp("", "verif-"+spec.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)

	soft := 420 * time.Second
	if tier == Thorough {
		soft = 3000 * time.Second
	}
	if v := os.Getenv("VERIF_SOFT_SECONDS"); v != "" {
		n, _ := strconv.Atoi(v)
		soft = time.Duration(n) * time.Second
	}
	deadline := start.Add(soft)

	per := make([]*sectionStats, len(spec.Sections))
	var jobs, alone []job
	for i := range spec.Sections {
		per[i] = &sectionStats{distinct: map[uint64]bool{}}
		per[i].Classes = map[string]int{}
		sec := &spec.Sections[i]
		if sec.ThoroughOnly && tier != Thorough || os.Getenv("VERIF_FUZZ_ONLY") != "" {
			continue
		}
		if f := os.Getenv("VERIF_SECTION"); f != "" && !strings.Contains(sec.Name, f) {
			continue
		}
		for s := 0; s < sec.shards(); s++ {
			if sec.Exclusive {
				alone = append(alone, job{i, s})
			} else {
				jobs = append(jobs, job{i, s})
			}
		}
	}

	procs := &procSet{m: map[*exec.Cmd]bool{}}
	var mu sync.Mutex
	known := map[string]string{}
	var failure *stats
	var failJob job
	var deaths []job
	suspected := false
	deathInfo := map[job]outcome{}

	do := func(j job) {
		o := runOne(spec, tier, dir, j, deadline, false, procs)
		mu.Lock()
		defer mu.Unlock()
		if failure != nil || suspected || o.status == "cancelled" {
			return
		}
		if o.died {
			deaths = append(deaths, j)
			deathInfo[j] = o
			if o.suspect != nil && !suspected {
				// Settle it at once: others may hang as well.
				suspected = true
				procs.stop()
			}
			return
		}
		ss := per[j.section]
		ss.jobs++
		ss.Evals += o.st.Evals
		ss.Cases += o.st.Cases
		ss.Rounds += o.st.Rounds
		ss.Truncated = ss.Truncated || o.st.Truncated
		for k, v := range o.st.Classes {
			ss.Classes[k] += v
		}
		for k, v := range o.st.Known {
			known[k] = v
		}
		if spec.Sections[j.section].Gen != nil {
			for _, h := range o.st.Hashes {
				ss.distinct[h] = true
			}
			ss.NonTrivial = len(ss.distinct)
		} else {
			ss.NonTrivial += o.st.NonTrivial
		}
		ss.Samples = append(ss.Samples, o.st.Samples...)
		if o.st.Fail != nil {
			failure = o.st
			failJob = j
			procs.stop()
		}
	}
	pool := func(js []job, width int) {
		queue := make(chan job)
		var wg sync.WaitGroup
		for w := 0; w < width; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := range queue {
					do(j)
				}
			}()
		}
		for _, j := range js {
			mu.Lock()
			stop := failure != nil || suspected
			mu.Unlock()
			if stop {
				break
			}
			queue <- j
		}
		close(queue)
		wg.Wait()
	}
	width := runtime.NumCPU()
	if width > 8 {
		width = 8
	}
	pool(jobs, width)
	if failure == nil && !suspected {
		pool(alone, 1)
	}

	violations := 0
	code := 0
	fuzzed := make([]*sectionStats, len(spec.Sections))
	if tier == Thorough && os.Getenv("VERIF_FUZZ") != "" && failure == nil && len(deaths) == 0 {
		for i := range spec.Sections {
			sec := &spec.Sections[i]
			if f := os.Getenv("VERIF_SECTION"); sec.Fuzz == 0 || f != "" && !strings.Contains(sec.Name, f) {
				continue
			}
			fs := &sectionStats{distinct: map[uint64]bool{}}
			fs.Classes = map[string]int{}
			fs.stats.Known = map[string]string{}
			path, msg := runFuzz(spec, i, dir, fs)
			fuzzed[i] = fs
			for k, v := range fs.stats.Known {
				known[k] = v
			}
			if path != "" {
				fmt.Printf("section %s (coverage-guided): %s\nVIOLATION property=%s replay=%s\n", sec.Name, msg, spec.ID, path)
				violations++
				code = 1
				break
			}
		}
	}
	if failure != nil {
		path := saveReplay(spec, failure.Fail, failJob, tier)
		fmt.Printf("section %s: %s\n", spec.Sections[failJob.section].Name, failure.FailMsg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", spec.ID, path)
		violations++
		code = 1
	} else if len(deaths) > 0 {
		code = investigate(spec, tier, dir, deaths, deathInfo, deadline, &violations)
	}
	for _, k := range sortedKeys(known) {
		fmt.Printf("KNOWN-FINDING: property=%s %s [%s] e.g. %s\n", spec.ID, knownKeys[k], k, oneLine(known[k]))
	}
	writeEvidence(spec, tier, per, fuzzed, violations, time.Since(start))
	total, nt := 0, 0
	for i, fs := range fuzzed {
		if fs != nil {
			total += fs.Evals
			nt += fs.NonTrivial
			fmt.Printf("%-28s %10d cases %10d evaluations %10d distinct non-trivial (coverage-guided)\n", spec.Sections[i].Name, fs.Cases, fs.Evals, fs.NonTrivial)
		}
	}
	for i, ss := range per {
		if ss.jobs == 0 {
			continue
		}
		total += ss.Evals
		nt += ss.NonTrivial
		tr := ""
		if ss.Truncated {
			tr = " (cut short by the soft deadline)"
		}
		fmt.Printf("%-28s %10d cases %10d evaluations %10d distinct non-trivial%s\n", spec.Sections[i].Name, ss.Cases, ss.Evals, ss.NonTrivial, tr)
	}
	fmt.Printf("%s %s seed=%d: %d evaluations, %d distinct non-trivial, %.1fs, exit %d\n", spec.ID, tier, Seed(), total, nt, time.Since(start).Seconds(), code)
	return code
}

func oneLine(s string) string {
	s = strings.ReplaceAll(s, "\n", " ")
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

func saveReplay(spec *Spec, env []byte, j job, tier Tier) string {
	var e envelope
	if json.Unmarshal(env, &e) == nil {
		e.Shard = j.shard
		e.Tier = tier.String()
		if b, err := json.MarshalIndent(e, "", " "); err == nil {
			env = b
		}
	}
	h := fnv.New32a()
	h.Write(env)
	dir := filepath.Join(Root(), "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%08x.json", spec.ID, h.Sum32()))
	if err := os.WriteFile(path, env, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	return path
}

// investigate handles workers that died: it isolates the case and re-runs it
// alone. Only a death that reproduces is a violation.
func investigate(spec *Spec, tier Tier, dir string, deaths []job, info map[job]outcome, deadline time.Time, violations *int) int {
	for i, j := range deaths {
		if i >= 3 {
			break
		}
		o := info[j]
		fmt.Fprintf(os.Stderr, "worker for section %s shard %d died: %s\n%s\n", spec.Sections[j.section].Name, j.shard, o.status, o.stderr)
		if o.harness {
			continue
		}
		if o.suspect == nil {
			procs := &procSet{m: map[*exec.Cmd]bool{}}
			d := deadline
			if m := time.Now().Add(300 * time.Second); m.After(d) {
				d = m
			}
			o = runOne(spec, tier, dir, j, d, true, procs)
			if !o.died {
				if o.st != nil && o.st.Fail != nil {
					path := saveReplay(spec, o.st.Fail, j, tier)
					fmt.Printf("%s\nVIOLATION property=%s replay=%s\n", o.st.FailMsg, spec.ID, path)
					*violations++
					return 1
				}
				fmt.Fprintln(os.Stderr, "death did not reproduce")
				continue
			}
		}
		if len(o.suspect) == 0 {
			continue
		}
		path := saveReplay(spec, o.suspect, j, tier)
		code, out := replayAlone(path)
		if code == 1 {
			fmt.Printf("%s\nVIOLATION property=%s replay=%s\n", tail(out, 1500), spec.ID, path)
			*violations++
			return 1
		}
		fmt.Fprintf(os.Stderr, "suspect case does not fail alone (%d):\n%s\n", code, tail(out, 3000))
	}
	return 2
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// replayAlone runs a case in a fresh process: 0 passes, 1 fails (the oracle, a
// fatal error, a hang), 2 anything else.
func replayAlone(path string) (int, string) {
	tmp, err := os.MkdirTemp("", "verif-replay-")
	if err != nil {
		return 2, err.Error()
	}
	defer os.RemoveAll(tmp)
	cmd := exec.Command(os.Args[0], "replay-child", path, filepath.Join(tmp, "suspect"))
	var buf bytes.Buffer
	cmd.Stdout = &buf
	cmd.Stderr = &buf
	cmd.Env = append(os.Environ(), "GOTRACEBACK=all")
	err = cmd.Run()
	out := buf.String()
	if len(out) > 8000 {
		out = out[:4000] + "\n...\n" + out[len(out)-4000:]
	}
	if err == nil {
		return 0, out
	}
	if ee, ok := err.(*exec.ExitError); ok {
		switch ee.ExitCode() {
		case 1:
			return 1, out
		case exitSuspect:
			return 1, out
		case exitCannot:
			return 2, out
		}
		return 1, fmt.Sprintf("process died: %v\n%s", err, out)
	}
	return 2, out
}

const exitCannot = 78

func replayChild(spec *Spec, path, suspect string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitCannot
	}
	c, env, err := spec.decode(b)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitCannot
	}
	var sec *Section
	for i := range spec.Sections {
		if spec.Sections[i].Name == env.Section {
			sec = &spec.Sections[i]
		}
	}
	limits(12 << 30)
	wd := newWatchdog(spec, sec, suspect)
	go wd.loop()
	wd.begin(c)
	rec := &Rec{}
	err = Catch(func() error { return c.Check(rec) })
	wd.end()
	for k, v := range rec.known {
		fmt.Printf("KNOWN-FINDING: property=%s %s [%s] e.g. %s\n", spec.ID, knownKeys[k], k, oneLine(v))
	}
	if err != nil {
		fmt.Printf("case fails: %v\n", err)
		return 1
	}
	return 0
}

func replay(spec *Spec, path string) int {
	code, out := replayAlone(path)
	fmt.Print(out)
	switch code {
	case 1:
		fmt.Printf("VIOLATION property=%s replay=%s\n", spec.ID, path)
		return 1
	case 2:
		return 2
	}
	// The case passes alone: it may depend on what ran before it in its shard.
	b, _ := os.ReadFile(path)
	var env envelope
	if json.Unmarshal(b, &env) != nil || env.Tier == "" {
		fmt.Println("replay: the case passes")
		return 0
	}
	fmt.Println("replay: the case passes alone; re-running its shard")
	os.Setenv("VERIF_SEED", fmt.Sprint(env.Seed))
	tier := Quick
	if env.Tier == "thorough" {
		tier = Thorough
	}
	dir, err := os.MkdirTemp("", "verif-"+spec.ID+"-")
	if err != nil {
		return 2
	}
	defer os.RemoveAll(dir)
	for i := range spec.Sections {
		if spec.Sections[i].Name != env.Section {
			continue
		}
		o := runOne(spec, tier, dir, job{i, env.Shard}, time.Now().Add(600*time.Second), false, &procSet{m: map[*exec.Cmd]bool{}})
		if o.died {
			fmt.Println(o.status, o.stderr)
			return 2
		}
		if o.st != nil && o.st.Fail != nil {
			fmt.Println(o.st.FailMsg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", spec.ID, path)
			return 1
		}
	}
	fmt.Println("replay: no failure")
	return 0
}

func writeEvidence(spec *Spec, tier Tier, per, fuzzed []*sectionStats, violations int, wall time.Duration) {
	cov := map[string]any{}
	evals, nt := 0, 0
	var samples []any
	var sections []any
	names := make([]string, 0, 2*len(per))
	modes := make([]string, 0, 2*len(per))
	all := make([]*sectionStats, 0, 2*len(per))
	for i, ss := range per {
		mode := "rapid"
		if spec.Sections[i].Enum != nil {
			mode = "exhaustive enumeration"
		}
		names, modes, all = append(names, spec.Sections[i].Name), append(modes, mode), append(all, ss)
	}
	for i, ss := range fuzzed {
		if ss != nil {
			names, modes, all = append(names, spec.Sections[i].Name), append(modes, "coverage-guided (go native fuzzing over rapid's bit stream)"), append(all, ss)
		}
	}
	for i, ss := range all {
		if ss.jobs == 0 {
			continue
		}
		evals += ss.Evals
		nt += ss.NonTrivial
		sections = append(sections, map[string]any{
			"section": names[i], "mode": modes[i], "cases": ss.Cases, "evaluations": ss.Evals,
			"distinct_nontrivial": ss.NonTrivial, "classes": ss.Classes, "cut_short": ss.Truncated, "rapid_runs": ss.Rounds,
		})
		for k, s := range pickSamples(ss.Samples) {
			if k >= 3 {
				break
			}
			if len(s) > 1200 {
				samples = append(samples, map[string]any{"section": names[i], "case_prefix": string(s[:1200])})
			} else {
				samples = append(samples, map[string]any{"section": names[i], "case": s})
			}
		}
	}
	cov["evaluations"] = evals
	cov["distinct_nontrivial"] = nt
	cov["rule"] = spec.Rule + " Distinctness: by 64-bit hash of the case within each rapid section, by construction within each enumeration; sections are counted separately."
	cov["samples"] = samples
	cov["sections"] = sections
	if spec.Finish != nil {
		spec.Finish(cov)
	}
	ev := map[string]any{
		"property": spec.ID, "tier": tier.String(), "seed": Seed(), "level": "exploration",
		"coverage": cov, "wall_s": wall.Seconds(), "violations": violations,
	}
	if len(spec.Assumptions) > 0 {
		ev["assumptions"] = spec.Assumptions
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		return
	}
	dir := filepath.Join(Root(), "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, spec.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
	}
}

// pickSamples spreads the choice over the collected samples.
func pickSamples(s []json.RawMessage) []json.RawMessage {
	if len(s) <= 3 {
		return s
	}
	return []json.RawMessage{s[0], s[len(s)/2], s[len(s)-1]}
}
