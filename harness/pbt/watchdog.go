package pbt

import (
	"flag"
	"fmt"
	"os"
	"strings"
	"sync"
	"syscall"
	"time"
)

func setFlag(name, value string) {
	if err := flag.Set(name, value); err != nil {
		panic(err)
	}
}

// Exit status of a worker whose watchdog fired; the suspect case is in the
// suspect file.
const exitSuspect = 77

// Exit status of a worker whose generator failed.
const exitHarness = 79

// watchdog looks for cases that do not return: that burn far more CPU time than
// any case needs, block without using CPU, or need far more memory. It never
// judges by wall-clock time alone, and its suspects are re-run alone before
// anything is reported.
type watchdog struct {
	mu      sync.Mutex
	spec    *Spec
	section string
	path    string
	cur     Case
	cpu0    time.Duration // CPU time at start of the case
	idle    time.Duration // wall time without CPU use
	lastCPU time.Duration
	last    time.Time
	limit   time.Duration
	idleMax time.Duration
	rssMax  int64
}

func cpuTime() time.Duration {
	var s, c syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &s)
	syscall.Getrusage(syscall.RUSAGE_CHILDREN, &c)
	d := time.Duration(0)
	for _, t := range []syscall.Timeval{s.Utime, s.Stime, c.Utime, c.Stime} {
		d += time.Duration(t.Sec)*time.Second + time.Duration(t.Usec)*time.Microsecond
	}
	return d
}

func rss() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	var size, res int64
	fmt.Sscan(string(b), &size, &res)
	return res * int64(os.Getpagesize())
}

func (w *watchdog) begin(c Case) {
	w.mu.Lock()
	w.cur = c
	w.cpu0 = -1
	w.idle = 0
	w.mu.Unlock()
}

func (w *watchdog) end() {
	w.mu.Lock()
	w.cur = nil
	w.mu.Unlock()
}

// childrenActive reports whether this process has live child processes (CLI
// checks); those have limits of their own.
func childrenActive() bool {
	b, err := os.ReadFile(fmt.Sprintf("/proc/self/task/%d/children", os.Getpid()))
	if err == nil && len(strings.TrimSpace(string(b))) > 0 {
		return true
	}
	ents, err := os.ReadDir("/proc/self/task")
	if err != nil {
		return false
	}
	for _, e := range ents {
		b, err := os.ReadFile("/proc/self/task/" + e.Name() + "/children")
		if err == nil && len(strings.TrimSpace(string(b))) > 0 {
			return true
		}
	}
	return false
}

func (w *watchdog) loop() {
	var prev Case
	for {
		time.Sleep(250 * time.Millisecond)
		w.mu.Lock()
		c := w.cur
		if c == nil || c != prev || w.cpu0 < 0 {
			prev = c
			w.cpu0 = cpuTime()
			w.lastCPU = w.cpu0
			w.last = time.Now()
			w.idle = 0
			if c == nil {
				w.mu.Unlock()
				continue
			}
		}
		now, cpu := time.Now(), cpuTime()
		dt, dc := now.Sub(w.last), cpu-w.lastCPU
		w.last, w.lastCPU = now, cpu
		// The watchdog itself uses a little CPU.
		if dc < dt/50 && dt < 2*time.Second {
			w.idle += dt
		} else if dt < 2*time.Second {
			w.idle = 0
		}
		reason := ""
		switch {
		case cpu-w.cpu0 > w.limit:
			reason = fmt.Sprintf("does not return: used %v of CPU time", w.limit)
		case w.idle > w.idleMax && !childrenActive():
			reason = fmt.Sprintf("does not return: blocked for %v without using CPU", w.idleMax)
		case rss() > w.rssMax:
			reason = fmt.Sprintf("memory use exceeds %d bytes", w.rssMax)
		}
		if reason != "" {
			b := w.spec.encode(w.section, c, reason)
			os.WriteFile(w.path, b, 0o644)
			fmt.Fprintf(os.Stderr, "watchdog: %s\n%.2000s\n", reason, b)
			os.Exit(exitSuspect)
		}
		w.mu.Unlock()
	}
}
