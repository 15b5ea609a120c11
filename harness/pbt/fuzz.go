package pbt

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Coverage-guided search. In the thorough tier every section with Fuzz > 0 is also
// explored by Go's native fuzzing engine: the engine mutates the bit stream that
// rapid draws from, guided by coverage of the instrumented repository code, so cases
// stay well structured. The oracle is the same Check. The test binary of the check
// (cNN.fuzz) is built by check.sh and named by VERIF_FUZZ.

var fuzzF *testing.F

// FuzzHook is called by the fuzz target of a check with its main function.
func FuzzHook(f *testing.F, main func()) {
	fuzzF = f
	main()
}

type fuzzStats struct {
	Evals  int
	Cases  int
	Known  map[string]string
	Hashes []uint64 `json:"-"`
	Sample json.RawMessage
}

func fuzz(spec *Spec, f *testing.F) {
	loadKnown(spec.ID)
	dir := os.Getenv("VERIF_FUZZ_DIR")
	si, err := strconv.Atoi(os.Getenv("VERIF_FUZZ_SECTION"))
	if dir == "" || err != nil {
		f.Skip("run by the thorough tier")
	}
	sec := &spec.Sections[si]
	debug.SetMemoryLimit(2 << 30)
	pid := os.Getpid()
	current := filepath.Join(dir, fmt.Sprintf("current-%d.json", pid))
	cur, err := os.Create(current)
	if err != nil {
		f.Fatal(err)
	}
	st := fuzzStats{Known: map[string]string{}}
	seen := map[uint64]bool{}
	flushed := time.Now()
	failed := -1
	flush := func() {
		flushed = time.Now()
		b, _ := json.Marshal(st)
		base := filepath.Join(dir, fmt.Sprintf("stats-%d", pid))
		os.WriteFile(base+".tmp", b, 0o644)
		os.Rename(base+".tmp", base+".json")
		hs := make([]uint64, 0, len(seen))
		for h := range seen {
			hs = append(hs, h)
		}
		writeHashes(base+".hashes", hs)
	}
	one := func(c Case, fatal func(string)) {
		raw := spec.encode(sec.Name, c, "")
		// The case a worker dies in: length and text, in place.
		cur.WriteAt(append(binary.LittleEndian.AppendUint32(nil, uint32(len(raw))), raw...), 0)
		rec := &Rec{}
		err := Catch(func() error { return c.Check(rec) })
		if errors.Is(err, ErrInvalid) {
			return
		}
		st.Cases++
		st.Evals += 1 + rec.evals
		for k, v := range rec.known {
			st.Known[k] = v
		}
		if rec.nontrivial && len(seen) < 1<<20 {
			h := fnv.New64a()
			h.Write(raw)
			seen[h.Sum64()] = true
			if st.Sample == nil || st.Cases%1000 == 0 {
				if b, e := json.Marshal(c); e == nil && len(b) < 4000 {
					st.Sample = b
				}
			}
		}
		if time.Since(flushed) > 2*time.Second {
			flush()
		}
		if err != nil {
			env := spec.encode(sec.Name, c, err.Error())
			if failed < 0 || len(env) < failed {
				failed = len(env)
				os.WriteFile(filepath.Join(dir, fmt.Sprintf("fail-%d.json", pid)), env, 0o644)
			}
			fatal(err.Error())
		}
	}
	// Texts are mutated directly, other cases through the stream they are drawn from.
	examples := rapid.Custom(func(t *rapid.T) Case { return sec.Gen(t) })
	if tx, ok := examples.Example(0).(Texter); ok {
		for i := 0; i < 400; i++ {
			if b := examples.Example(int(Mix("fuzz", sec.Name, i) >> 2)).(Texter).Text(); len(b) < 400 {
				f.Add(b)
			}
		}
		f.Fuzz(func(t *testing.T, b []byte) {
			if c := tx.WithText(b); c != nil {
				one(c, func(s string) { t.Fatal(s) })
			}
		})
		return
	}
	// Seeds: bit streams of ordinary rapid cases.
	for i := uint64(0); i < 64; i++ {
		b := make([]byte, 0, 8*256)
		x := Mix("fuzz", sec.Name, i)
		for k := 0; k < 256; k++ {
			x ^= x << 13
			x ^= x >> 7
			x ^= x << 17
			b = binary.LittleEndian.AppendUint64(b, x)
		}
		f.Add(b)
	}
	f.Fuzz(rapid.MakeFuzz(func(t *rapid.T) {
		one(sec.Gen(t), func(s string) { t.Fatal(s) })
	}))
}

// Texter is implemented by cases that are little more than a text.
type Texter interface {
	Case
	Text() []byte
	// WithText returns a case with another text, nil if it cannot hold it.
	WithText(b []byte) Case
}

var fuzzLine = regexp.MustCompile(`new interesting: (\d+)`)

// runFuzz explores one section and returns the replay file of a failure that
// reproduces alone, or "".
func runFuzz(spec *Spec, si int, dir string, ss *sectionStats) (path, msg string) {
	bin := os.Getenv("VERIF_FUZZ")
	sec := &spec.Sections[si]
	d := filepath.Join(dir, fmt.Sprintf("fuzz-%d", si))
	if err := os.MkdirAll(d, 0o755); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return "", ""
	}
	defer os.RemoveAll(d)
	secs := sec.Fuzz
	if v := os.Getenv("VERIF_FUZZ_SECONDS"); v != "" {
		secs, _ = strconv.Atoi(v)
	}
	cmd := exec.Command(bin, "-test.run=^$", "-test.fuzz=^FuzzSections$", fmt.Sprintf("-test.fuzztime=%ds", secs),
		"-test.fuzzminimizetime=1x", "-test.fuzzcachedir="+filepath.Join(d, "cache"), "-test.parallel=8")
	cmd.Dir = d
	cmd.Env = append(os.Environ(), "VERIF_FUZZ_DIR="+d, "VERIF_FUZZ_SECTION="+strconv.Itoa(si), "GOMAXPROCS=8")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return "", ""
	}
	timer := time.AfterFunc(time.Duration(secs+180)*time.Second, func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
	err := cmd.Wait()
	timer.Stop()
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)

	files, _ := filepath.Glob(filepath.Join(d, "stats-*.json"))
	for _, p := range files {
		var st fuzzStats
		b, e := os.ReadFile(p)
		if e != nil || json.Unmarshal(b, &st) != nil {
			continue
		}
		ss.Evals += st.Evals
		ss.Cases += st.Cases
		for k, v := range st.Known {
			ss.Known[k] = v
		}
		for _, h := range readHashes(strings.TrimSuffix(p, ".json") + ".hashes") {
			ss.distinct[h] = true
		}
		if st.Sample != nil {
			ss.Samples = append(ss.Samples, st.Sample)
		}
	}
	ss.NonTrivial = len(ss.distinct)
	ss.jobs++
	if m := fuzzLine.FindAllStringSubmatch(out.String(), -1); m != nil {
		n, _ := strconv.Atoi(m[len(m)-1][1])
		ss.Classes["inputs kept for new coverage"] = n
	}
	if err == nil {
		return "", ""
	}
	// The smallest recorded failure, else the case a worker died in.
	best := ""
	var size int64
	fails, _ := filepath.Glob(filepath.Join(d, "fail-*.json"))
	for _, p := range fails {
		if fi, e := os.Stat(p); e == nil && (best == "" || fi.Size() < size) {
			best, size = p, fi.Size()
		}
	}
	cands := []string{best}
	if best == "" {
		cands = nil
		cur, _ := filepath.Glob(filepath.Join(d, "current-*.json"))
		for _, p := range cur {
			b, e := os.ReadFile(p)
			if e != nil || len(b) < 4 {
				continue
			}
			n := int(binary.LittleEndian.Uint32(b))
			if n > len(b)-4 || os.WriteFile(p, b[4:4+n], 0o644) != nil {
				continue
			}
			cands = append(cands, p)
		}
	}
	for _, p := range cands {
		code, o := replayAlone(p)
		if code != 1 {
			continue
		}
		b, e := os.ReadFile(p)
		if e != nil {
			continue
		}
		return saveReplay(spec, b, job{si, 0}, Thorough), tail(o, 1500)
	}
	// Not a failure of a case (the engine ran out of time while minimising, say).
	fmt.Fprintf(os.Stderr, "fuzzing %s ended with %v, no case fails alone\n%s\n", sec.Name, err, tail(out.String(), 1500))
	return "", ""
}
