package engine

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Options of a run.
type Options struct {
	Verif   string // the /verif directory
	Tier    string
	Seed    uint64
	Cases   int    // overrides the number of cases, when > 0
	RaceBin string // binary built with the race detector
	KeepOn  bool   // do not stop at the first failure (development)
	Max     int    // how many failures to report with KeepOn
}

// ---------------------------------------------------------------- workers

type worker struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	stderr *tailBuffer
	dir    string
	ran    []*Case // what it ran before
}

type tailBuffer struct {
	mu   sync.Mutex
	head []byte
	tail []byte
}

func (b *tailBuffer) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if len(b.head) < 4096 {
		b.head = append(b.head, p...)
	} else {
		b.tail = append(b.tail, p...)
		if len(b.tail) > 8192 {
			b.tail = append([]byte(nil), b.tail[len(b.tail)-4096:]...)
		}
	}
	return len(p), nil
}

func (b *tailBuffer) String() string {
	b.mu.Lock()
	defer b.mu.Unlock()
	s := string(b.head)
	if len(s) > 4096 {
		s = s[:4096]
	}
	return s
}

func startWorker(bin string, cpuLimit int) (*worker, error) {
	dir, err := os.MkdirTemp("", "verif-worker-")
	if err != nil {
		return nil, err
	}
	w := &worker{stderr: &tailBuffer{}, dir: dir}
	w.cmd = exec.Command(bin, "worker")
	w.cmd.Dir = dir
	w.cmd.Stderr = w.stderr
	w.cmd.Env = append(os.Environ(),
		fmt.Sprintf("VERIF_CASE_CPU=%d", cpuLimit),
		"VERIF_WORK="+dir,
		"GORACE=halt_on_error=1 exitcode=66",
		"GOTRACEBACK=single",
	)
	w.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if w.in, err = w.cmd.StdinPipe(); err != nil {
		return nil, err
	}
	out, err := w.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	w.out = bufio.NewReaderSize(out, 1<<20)
	if err := w.cmd.Start(); err != nil {
		return nil, err
	}
	return w, nil
}

func (w *worker) stop() {
	_ = w.in.Close()
	done := make(chan struct{})
	go func() { _ = w.cmd.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		_ = w.cmd.Process.Kill()
		<-done
	}
	_ = os.RemoveAll(w.dir)
}

// errWorker is a trouble of the machinery, not of the code under test.
var errWorker = errors.New("worker trouble")

// run runs one case. When the worker dies, dead is true and the failure says how.
func (w *worker) run(id string, c *Case) (resp response, dead bool, err error) {
	b, err := json.Marshal(request{Prop: id, Case: c})
	if err != nil {
		return resp, false, err
	}
	_, werr := w.in.Write(append(b, '\n'))
	var line []byte
	if werr == nil {
		line, werr = w.out.ReadBytes('\n')
	}
	if werr == nil {
		return resp, false, json.Unmarshal(line, &resp)
	}
	state := w.cmd.Wait()
	_ = os.RemoveAll(w.dir)
	var ee *exec.ExitError
	if !errors.As(state, &ee) {
		return resp, true, fmt.Errorf("%w: %v", errWorker, state)
	}
	ws, _ := ee.Sys().(syscall.WaitStatus)
	text := w.stderr.String()
	switch {
	case ws.Signaled() && ws.Signal() == syscall.SIGKILL:
		return resp, true, fmt.Errorf("%w: killed", errWorker)
	case ee.ExitCode() == exitCPU:
		resp.Fail = Failf("hang", "the case does not end: %s", text)
	case ee.ExitCode() == exitMem:
		resp.Fail = Failf("memory", "%s", text)
	case ee.ExitCode() == exitBlocked:
		resp.Fail = Failf("blocked", "%s", text)
	case ee.ExitCode() == exitRace && strings.Contains(text, "DATA RACE"):
		resp.Fail = Failf("race", "%s", text)
	case strings.Contains(text, "cannot allocate memory") || strings.Contains(text, "resource temporarily unavailable"):
		return resp, true, fmt.Errorf("%w: %s", errWorker, text)
	case ee.ExitCode() == 3:
		return resp, true, fmt.Errorf("%w: %s", errWorker, text)
	default:
		resp.Fail = Failf("crash", "the process ended (%v): %s", ee, text)
	}
	return resp, true, nil
}

// pool is a set of workers which are restarted when they die.
type pool struct {
	bin  string
	cpu  int
	free chan *worker
	n    int
}

func newPool(bin string, n, cpu int) *pool {
	p := &pool{bin: bin, cpu: cpu, free: make(chan *worker, n), n: n}
	for i := 0; i < n; i++ {
		p.free <- nil // started lazily
	}
	return p
}

func (p *pool) run(id string, c *Case) (response, bool, error) {
	r, _, dead, err := p.runHist(id, c)
	return r, dead, err
}

// runHist also returns, when the case fails, the cases which the same process ran before.
func (p *pool) runHist(id string, c *Case) (r response, before []*Case, dead bool, err error) {
	w := <-p.free
	if w == nil {
		if w, err = startWorker(p.bin, p.cpu); err != nil {
			p.free <- nil
			return response{}, nil, false, fmt.Errorf("%w: %v", errWorker, err)
		}
	}
	r, dead, err = w.run(id, c)
	if r.Fail != nil {
		before = append(before, w.ran...)
	}
	w.ran = append(w.ran, c)
	if dead {
		w = nil
	}
	p.free <- w
	return r, before, dead, err
}

func (p *pool) close() {
	for i := 0; i < p.n; i++ {
		if w := <-p.free; w != nil {
			w.stop()
		}
	}
}

// ---------------------------------------------------------------- a run

type finding struct {
	prop, file, what string
	c                *Case
}

// Run runs the check of one property, and returns the exit code.
func Run(id string, o Options) int {
	start := time.Now()
	p := Get(id)
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	bin, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if p.Race && o.RaceBin != "" {
		bin = o.RaceBin
	}
	n := runtime.NumCPU()
	if p.Workers > 0 && n > p.Workers {
		n = p.Workers
	}
	cases := p.Quick
	budget := 600 * time.Second
	if o.Tier == "thorough" {
		cases = p.Thorough
		budget = 1 * time.Hour
	}
	if o.Cases > 0 {
		cases = o.Cases
	}
	pl := newPool(bin, n, 30)
	defer pl.close()
	r := &runner{p: p, pool: pl, bin: bin, o: o}

	// saved regressions first, then known findings, then the generated cases
	regress, err := r.load("regress")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	known, err := r.loadKnown()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	evals := 0
	for _, f := range regress {
		evals++
		fail, err := r.confirmed(f.c)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		if fail != nil {
			r.report(f.c, fail)
			if !o.KeepOn {
				r.evidence(start, evals, cases, 1)
				return 1
			}
		}
	}
	knownSeen := 0
	for _, f := range known {
		evals++
		fail, err := r.confirmedIn(10, f.c)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		if fail != nil {
			knownSeen++
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, f.what)
		}
	}

	type result struct {
		idx  int
		c    *Case
		ch   []uint64
		fail *Fail
		hist []*Case
		err  error
	}
	jobs := make(chan int)
	results := make(chan result, 64)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for idx := range jobs {
				t := NewT(o.Seed, uint64(idx))
				c := p.Gen(t)
				res := result{idx: idx, c: c, ch: t.Choices}
				resp, hist, dead, err := pl.runHist(id, c)
				if dead || err != nil {
					// see whether it is the case, in a process of its own
					res.fail, res.err = r.confirmed(c)
				} else {
					res.fail, res.hist = resp.Fail, hist
					c.Labels = resp.Labels
				}
				results <- res
			}
		}()
	}
	stop := make(chan struct{})
	go func() {
		defer close(jobs)
		for i := 0; i < cases; i++ {
			select {
			case jobs <- i:
			case <-stop:
				return
			}
		}
	}()
	go func() { wg.Wait(); close(results) }()
	var failed []result
	var machineErr error
	stopped := false
	halt := func() {
		if !stopped {
			stopped = true
			close(stop)
		}
	}
	timer := time.NewTimer(budget - time.Since(start))
	defer timer.Stop()
	done, failures, timedOut := 0, 0, false
loop:
	for {
		select {
		case res, ok := <-results:
			if !ok {
				break loop
			}
			done++
			evals++
			r.count(res.c)
			if res.err != nil {
				machineErr = res.err
				halt()
				continue
			}
			if res.fail != nil {
				failures++
				if o.KeepOn {
					if failures <= o.Max {
						rr := res
						c, f := r.shrink(rr.ch, rr.c, rr.fail)
						r.report(c, f)
					}
					continue
				}
				failed = append(failed, res)
				halt()
			}
		case <-timer.C:
			timedOut = true
			halt()
		}
	}
	code := 0
	violations := 0
	switch {
	case len(failed) > 0:
		sort.Slice(failed, func(i, j int) bool { return failed[i].idx < failed[j].idx })
		for i := range failed {
			f, err := r.confirmed(failed[i].c)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				code = 2
				break
			}
			if f != nil {
				c, f := r.shrink(failed[i].ch, failed[i].c, f)
				r.report(c, f)
				violations, code = 1, 1
				break
			}
		}
		if code != 0 {
			break
		}
		// none fails alone in a fresh process: it takes what the process did before, or luck
		first := failed[0]
		before, f := r.confirmHistory(first.hist, first.c)
		if f == nil {
			f = first.fail
			f.Msg += "\n(seen once; not reproduced in a fresh process)"
		}
		r.report(first.c, f, before...)
		violations, code = 1, 1
	case machineErr != nil:
		fmt.Fprintln(os.Stderr, machineErr)
		code = 2
	case timedOut && done < cases/5:
		fmt.Fprintf(os.Stderr, "only %d of %d cases within the time budget\n", done, cases)
		code = 2
	case o.KeepOn && failures > 0:
		fmt.Printf("%d of %d cases failed\n", failures, done)
		code = 1
	}
	r.evidence(start, evals, cases, violations)
	if code == 0 {
		fmt.Printf("property=%s held on %d cases (%d distinct and non-trivial), %d known finding(s), %.1fs\n",
			id, evals, r.nontrivial(), knownSeen, time.Since(start).Seconds())
	}
	return code
}

type runner struct {
	p       *Prop
	pool    *pool
	bin     string
	o       Options
	labels  map[string]int
	seen    map[[32]byte]bool
	trivial int
	samples []*Case
	sizes   []int
}

func (r *runner) nontrivial() int { return len(r.seen) }

func (r *runner) count(c *Case) {
	if r.labels == nil {
		r.labels = map[string]int{}
		r.seen = map[[32]byte]bool{}
	}
	done := map[string]bool{}
	for _, l := range c.Labels {
		if !done[l] {
			r.labels[l]++
			done[l] = true
		}
	}
	if c.Sub != "" {
		r.labels["sub:"+c.Sub]++
	}
	r.sizes = append(r.sizes, len(c.Doc))
	if c.Trivial {
		r.trivial++
		return
	}
	cc := *c
	cc.Labels = nil
	b, _ := json.Marshal(cc)
	r.seen[sha256.Sum256(b)] = true
	if len(r.samples) < 3 && len(b) < 6000 {
		r.samples = append(r.samples, &cc)
	}
}

// confirmHistory looks for a short sequence of earlier cases after which the case fails.
func (r *runner) confirmHistory(before []*Case, c *Case) ([]*Case, *Fail) {
	run := func(seq []*Case) *Fail {
		f, err := r.confirmed(c, seq...)
		if err != nil {
			return nil
		}
		return f
	}
	if len(before) > 3000 {
		before = before[len(before)-3000:]
	}
	f := run(before)
	if f == nil {
		return nil, nil
	}
	budget := 60
	for size := (len(before) + 1) / 2; size >= 1; size /= 2 {
		for i := 0; i < len(before) && budget > 0; {
			j := i + size
			if j > len(before) {
				j = len(before)
			}
			seq := append(append([]*Case(nil), before[:i]...), before[j:]...)
			budget--
			if ff := run(seq); ff != nil {
				before, f = seq, ff
			} else {
				i += size
			}
		}
	}
	return before, f
}

// confirmed runs a case in a fresh process, after the given ones.
func (r *runner) confirmed(c *Case, before ...*Case) (*Fail, error) {
	return r.confirmedIn(60, c, before...)
}

// confirmedIn also says how many seconds of processor time the case may take.
func (r *runner) confirmedIn(limit int, c *Case, before ...*Case) (*Fail, error) {
	var err error
	for try := 0; try < 3; try++ {
		var w *worker
		if w, err = startWorker(r.bin, limit); err != nil {
			err = fmt.Errorf("%w: %v", errWorker, err)
			continue
		}
		var resp response
		var dead bool
		for _, b := range before {
			if _, dead, err = w.run(r.p.ID, b); dead || err != nil {
				break
			}
		}
		if !dead && err == nil {
			resp, dead, err = w.run(r.p.ID, c)
		}
		if !dead {
			w.stop()
		}
		if err == nil {
			return resp.Fail, nil
		}
		time.Sleep(time.Second)
	}
	return nil, err
}

// shrink looks for a smaller case which fails in the same way.
func (r *runner) shrink(choices []uint64, c *Case, f *Fail) (*Case, *Fail) {
	best, bestC, bestF := append([]uint64(nil), choices...), c, f
	budget := 600
	deadline := time.Now().Add(60 * time.Second)
	if f.Kind == "hang" || f.Kind == "blocked" || f.Kind == "memory" || f.Kind == "race" {
		return c, f // too slow, or not deterministic enough
	}
	try := func(ch []uint64) bool {
		if budget <= 0 || time.Now().After(deadline) {
			return false
		}
		budget--
		t := ReplayT(ch)
		cc := r.p.Gen(t)
		resp, _, err := r.pool.run(r.p.ID, cc)
		if err != nil || resp.Fail == nil || resp.Fail.Kind != bestF.Kind {
			return false
		}
		used := t.Choices
		if len(used) > len(ch) {
			used = used[:len(ch)]
		}
		if len(used) > len(best) || (len(used) == len(best) && !less(used, best)) {
			return false
		}
		best, bestC, bestF = append([]uint64(nil), used...), cc, resp.Fail
		return true
	}
	for improved := true; improved && budget > 0; {
		improved = false
		for size := len(best) / 2; size >= 1; size /= 2 {
			for i := 0; i+size <= len(best); {
				ch := append(append([]uint64(nil), best[:i]...), best[i+size:]...)
				if try(ch) {
					improved = true
				} else {
					i += size
				}
				if budget <= 0 {
					break
				}
			}
		}
		for i := 0; i < len(best) && budget > 0; i++ {
			if best[i] == 0 {
				continue
			}
			for _, v := range []uint64{0, best[i] / 2, best[i] - 1} {
				ch := append([]uint64(nil), best...)
				ch[i] = v
				if try(ch) {
					improved = true
					break
				}
				if i >= len(best) {
					break
				}
			}
		}
	}
	// the shrunk case has to fail in a fresh process too
	if bestC != c {
		if ff, err := r.confirmed(bestC); err == nil && ff != nil {
			return bestC, ff
		}
		return c, f
	}
	return bestC, bestF
}

func less(a, b []uint64) bool {
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

type replayFile struct {
	Property string `json:"property"`
	Fail     *Fail  `json:"fail,omitempty"`
	Case     *Case  `json:"case"`
	// Before are cases which have to run first, in the same process
	Before []*Case `json:"before,omitempty"`
}

func (r *runner) report(c *Case, f *Fail, before ...*Case) {
	b := encode(replayFile{r.p.ID, f, c, before})
	sum := sha256.Sum256(b)
	dir := filepath.Join(r.o.Verif, "replays")
	_ = os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s.json", r.p.ID, hex.EncodeToString(sum[:6])))
	if err := os.WriteFile(path, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.p.ID, path)
	fmt.Printf("--- %s\n--- document:\n%s\n", f.Error(), c.Doc)
}

func encode(v interface{}) []byte {
	buf := &bytes.Buffer{}
	e := json.NewEncoder(buf)
	e.SetEscapeHTML(false)
	e.SetIndent("", "  ")
	_ = e.Encode(v)
	return buf.Bytes()
}

// LoadReplay reads a replay file.
func LoadReplay(path string) (string, *Case, error) {
	id, c, _, err := loadReplay(path)
	return id, c, err
}

func loadReplay(path string) (string, *Case, []*Case, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return "", nil, nil, err
	}
	f := replayFile{}
	if err := json.Unmarshal(b, &f); err != nil {
		return "", nil, nil, fmt.Errorf("%s: %v", path, err)
	}
	return f.Property, f.Case, f.Before, nil
}

// Replay runs one saved case in a fresh process.
func Replay(path string, o Options) int {
	id, c, before, err := loadReplay(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := Get(id)
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	bin, _ := os.Executable()
	if p.Race && o.RaceBin != "" {
		bin = o.RaceBin
	}
	r := &runner{p: p, bin: bin, o: o}
	f, err := r.confirmed(c, before...)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if f != nil {
		fmt.Printf("VIOLATION property=%s replay=%s\n--- %s\n", id, path, f.Error())
		return 1
	}
	fmt.Printf("property=%s held on %s\n", id, path)
	return 0
}

// load reads the saved cases of this property in a folder.
func (r *runner) load(folder string) ([]finding, error) {
	paths, err := filepath.Glob(filepath.Join(r.o.Verif, folder, r.p.ID+"-*.json"))
	if err != nil {
		return nil, err
	}
	sort.Strings(paths)
	var res []finding
	for _, path := range paths {
		_, c, err := LoadReplay(path)
		if err != nil {
			return nil, err
		}
		res = append(res, finding{r.p.ID, path, "", c})
	}
	return res, nil
}

// loadKnown reads the lines "finding: property=<id> case=<file> <what>" of the file of the known findings.
func (r *runner) loadKnown() ([]finding, error) {
	b, err := os.ReadFile(filepath.Join(r.o.Verif, "KNOWN_FINDINGS.txt"))
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var res []finding
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.SplitN(l, " ", 4)
		if len(f) < 4 || f[0] != "finding:" || f[1] != "property="+r.p.ID {
			continue
		}
		file := strings.TrimPrefix(f[2], "case=")
		_, c, err := LoadReplay(filepath.Join(r.o.Verif, file))
		if err != nil {
			return nil, err
		}
		res = append(res, finding{r.p.ID, file, f[3], c})
	}
	return res, nil
}

func (r *runner) evidence(start time.Time, evals, planned, violations int) {
	dir := filepath.Join(r.o.Verif, "evidence")
	_ = os.MkdirAll(dir, 0o755)
	sort.Ints(r.sizes)
	med := 0
	if len(r.sizes) > 0 {
		med = r.sizes[len(r.sizes)/2]
	}
	samples := []interface{}{}
	for _, c := range r.samples {
		samples = append(samples, c)
	}
	if len(samples) == 0 {
		samples = append(samples, "no non-trivial case was generated before the run ended")
	}
	labels := r.labels
	if labels == nil {
		labels = map[string]int{}
	}
	b := encode(map[string]interface{}{
		"property": r.p.ID,
		"tier":     r.o.Tier,
		"seed":     r.o.Seed,
		"level":    "exploration",
		"coverage": map[string]interface{}{
			"evaluations":          evals,
			"planned":              planned,
			"distinct_nontrivial":  r.nontrivial(),
			"trivial":              r.trivial,
			"rule":                 r.p.Rule,
			"classes":              labels,
			"median_document_size": med,
			"samples":              samples,
		},
		"assumptions": append([]string{}, r.p.Assume...),
		"wall_s":      time.Since(start).Seconds(),
		"violations":  violations,
	})
	if err := os.WriteFile(filepath.Join(dir, r.p.ID+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}
