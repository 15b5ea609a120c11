// Package cli runs the command-line tool under resource limits.
package cli

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"syscall"
	"time"

	"github.com/mmcloughlin/addchain/verif/pbt"
)

// Limits of a run. Only CPU time, blocking without any CPU use and memory are
// judged, never wall-clock time.
type Limits struct {
	CPU     int // seconds
	MemMB   int // address space, negative for no limit
	MaxOut  int // bytes of stdout kept
	Procs   int // GOMAXPROCS, 0 for the default
	NoInput bool
	Dir     string
	Env     []string // additional environment
}

// Result of a run.
type Result struct {
	Code   int // exit status, -1 if killed by a signal
	Signal syscall.Signal
	Stdout string
	Stderr string
	// Hung is set if the process blocked without using CPU.
	Hung bool
	CPU  time.Duration
}

func (r Result) String() string {
	s := fmt.Sprintf("exit %d", r.Code)
	if r.Signal != 0 {
		s = fmt.Sprintf("killed by signal %v", r.Signal)
	}
	if r.Hung {
		s += " (blocked without using CPU)"
	}
	return fmt.Sprintf("%s after %v of CPU, stderr %q", s, r.CPU.Round(time.Millisecond), Tail(r.Stderr, 1200))
}

// Crash describes an abnormal end: a signal, a runtime panic or fatal error, or
// an exceeded limit.
func (r Result) Crash() error {
	switch {
	case r.Hung:
		return fmt.Errorf("hangs: %v", r)
	case r.Signal == syscall.SIGXCPU || r.Signal == syscall.SIGKILL:
		return fmt.Errorf("does not end within the CPU limit: %v", r)
	case r.Signal != 0:
		return fmt.Errorf("crashes: %v", r)
	case strings.Contains(r.Stderr, "goroutine ") && (strings.Contains(r.Stderr, "panic: ") || strings.Contains(r.Stderr, "fatal error: ")):
		return fmt.Errorf("crashes: %v", r)
	case r.Code == 2 && strings.Contains(r.Stderr, "panic: "):
		return fmt.Errorf("crashes: %v", r)
	}
	return nil
}

// Tail of a string.
func Tail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "..." + s[len(s)-n/2:]
	}
	return s
}

type capped struct {
	b bytes.Buffer
	n int
}

func (c *capped) Write(p []byte) (int, error) {
	if room := c.n - c.b.Len(); room > 0 {
		c.b.Write(p[:min(room, len(p))])
	}
	return len(p), nil
}

// Bin is the path of the tool built from the current tree.
func Bin() string { return os.Getenv("VERIF_ADDCHAIN") }

// Addchain runs the tool.
func Addchain(l Limits, stdin string, args ...string) Result {
	return Run(Bin(), l, stdin, args...)
}

// Run a program. Failing to start it is a failure of the harness.
func Run(bin string, l Limits, stdin string, args ...string) Result {
	if l.CPU == 0 {
		l.CPU = 60
	}
	if l.MemMB == 0 {
		l.MemMB = 4096
	}
	if l.MaxOut == 0 {
		l.MaxOut = 32 << 20
	}
	mem := fmt.Sprintf("ulimit -v %d", l.MemMB*1024)
	if l.MemMB < 0 {
		mem = "ulimit -S -v $(ulimit -H -v)"
	}
	script := fmt.Sprintf(`ulimit -c 0; ulimit -t %d; %s; exec "$0" "$@"`, l.CPU, mem)
	var err error
	for try := 0; try < 5; try++ {
		cmd := exec.Command("/bin/bash", append([]string{"-c", script, bin}, args...)...)
		if !l.NoInput {
			cmd.Stdin = strings.NewReader(stdin)
		}
		cmd.Dir = l.Dir
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
		procs := l.Procs
		if procs == 0 {
			procs = 2
		}
		cmd.Env = append(os.Environ(), fmt.Sprintf("GOMAXPROCS=%d", procs), "GOTRACEBACK=single", "ADDCHAIN_PROFILE=")
		cmd.Env = append(cmd.Env, l.Env...)
		out, errb := &capped{n: l.MaxOut}, &capped{n: 4 << 20}
		cmd.Stdout, cmd.Stderr = out, errb
		if err = cmd.Start(); err != nil {
			time.Sleep(time.Duration(100<<try) * time.Millisecond)
			continue
		}
		stop := make(chan bool)
		hung := make(chan bool, 1)
		go watch(cmd.Process.Pid, stop, hung)
		werr := cmd.Wait()
		close(stop)
		r := Result{Code: -1, Stdout: out.b.String(), Stderr: errb.b.String()}
		select {
		case <-hung:
			r.Hung = true
		default:
		}
		if cmd.ProcessState == nil {
			pbt.HarnessFailure(fmt.Sprintf("%s %q: %v", bin, args, werr))
		}
		r.CPU = cmd.ProcessState.UserTime() + cmd.ProcessState.SystemTime()
		ws := cmd.ProcessState.Sys().(syscall.WaitStatus)
		if ws.Signaled() {
			r.Signal = ws.Signal()
		} else {
			r.Code = ws.ExitStatus()
		}
		if r.Code == 126 || r.Code == 127 {
			err = fmt.Errorf("%v", r)
			time.Sleep(time.Duration(100<<try) * time.Millisecond)
			continue
		}
		// Out of memory outside the program's control: not a verdict.
		if r.Signal == syscall.SIGKILL && r.CPU < time.Duration(l.CPU)*time.Second && !r.Hung {
			err = fmt.Errorf("killed: %v", r)
			time.Sleep(time.Second)
			continue
		}
		// A Go program that cannot start its first threads under memory pressure.
		if strings.Contains(r.Stderr, "runtime: failed to create new OS thread") || strings.Contains(r.Stderr, "pthread_create failed") {
			err = fmt.Errorf("%v", r)
			time.Sleep(time.Second)
			continue
		}
		return r
	}
	pbt.HarnessFailure(fmt.Sprintf("cannot run %s %q: %v", bin, args, err))
	panic("unreachable")
}

// watch kills a process whose threads all sleep without using any CPU for 60 s.
func watch(pid int, stop, hung chan bool) {
	last, idle := int64(-1), 0
	for {
		select {
		case <-stop:
			return
		case <-time.After(2 * time.Second):
		}
		b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
		if err != nil {
			return
		}
		f := strings.Fields(string(b[bytes.LastIndexByte(b, ')')+1:]))
		if len(f) < 13 {
			return
		}
		var u, s int64
		fmt.Sscan(f[11], &u)
		fmt.Sscan(f[12], &s)
		if f[0] == "S" && u+s-last <= 1 {
			idle++
		} else {
			idle = 0
		}
		last = u + s
		if idle >= 30 {
			hung <- true
			syscall.Kill(-pid, syscall.SIGKILL)
			return
		}
	}
}
