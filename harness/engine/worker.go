package engine

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// exit codes of a worker that gives up on a case
const (
	exitCPU     = 97 // too much processor time
	exitMem     = 98 // too much memory
	exitBlocked = 99 // no progress, and no processor time used either
	exitRace    = 66 // data race reported by the race detector
)

type request struct {
	Prop string `json:"prop"`
	Case *Case  `json:"case"`
}

type response struct {
	Fail   *Fail    `json:"fail,omitempty"`
	Labels []string `json:"labels,omitempty"`
}

func cpuTime() time.Duration {
	var u syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

func rss() uint64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseUint(f[1], 10, 64)
	return n * uint64(os.Getpagesize())
}

// Worker serves requests on stdin until it is closed.
func Worker() {
	out := bufio.NewWriter(os.Stdout)
	os.Stdout = os.Stderr // whatever the code under test prints is not part of the protocol
	runtime.GOMAXPROCS(2)
	debug.SetMaxStack(512 << 20)
	limit := 30 * time.Second
	if s, err := strconv.Atoi(os.Getenv("VERIF_CASE_CPU")); err == nil {
		limit = time.Duration(s) * time.Second
	}
	var busy atomic.Value // caseStart
	type caseStart struct {
		wall time.Time
		cpu  time.Duration
	}
	busy.Store((*caseStart)(nil))
	go func() {
		for {
			time.Sleep(100 * time.Millisecond)
			s := busy.Load().(*caseStart)
			if s == nil {
				continue
			}
			used := cpuTime() - s.cpu
			switch {
			case used > limit:
				fmt.Fprintf(os.Stderr, "case used %v of processor time\n", used)
				os.Exit(exitCPU)
			case rss() > 3<<30:
				fmt.Fprintln(os.Stderr, "case used more than 3 GB of memory")
				os.Exit(exitMem)
			case time.Since(s.wall) > 3*limit && used < time.Second:
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				fmt.Fprintf(os.Stderr, "case is blocked\n%s\n", buf)
				os.Exit(exitBlocked)
			}
		}
	}()
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var req request
		if err := json.Unmarshal(line, &req); err != nil {
			fmt.Fprintln(os.Stderr, "bad request:", err)
			os.Exit(3)
		}
		busy.Store(&caseStart{time.Now(), cpuTime()})
		f := runCheck(Get(req.Prop), req.Case)
		busy.Store((*caseStart)(nil))
		b, err := json.Marshal(response{Fail: f, Labels: req.Case.Labels})
		if err != nil {
			fmt.Fprintln(os.Stderr, "bad response:", err)
			os.Exit(3)
		}
		_, _ = out.Write(append(b, '\n'))
		_ = out.Flush()
	}
}

// runCheck runs the check of one case; a panic in the code under test, in the
// goroutine of the check, is a failure of the case (one in another goroutine
// ends the process, and is seen by the parent).
func runCheck(p *Prop, c *Case) (f *Fail) {
	defer func() {
		if r := recover(); r != nil {
			f = Failf("panic", "%v\n%s", r, trimStack(string(debug.Stack())))
		}
	}()
	return p.Check(c)
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}
