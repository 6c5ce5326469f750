package mon

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

const (
	defaultCPU  = 60.0 // CPU seconds one case may use before it counts as a hang
	wallGuard   = 420 * time.Second
	maxViolates = 12
	memLimit    = 12 << 30
)

func count(w *Workload, tier string) int {
	if tier == "thorough" {
		if w.Thorough > 0 {
			return w.Thorough
		}
	}
	return w.Quick
}

func cpuNow() float64 {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

// raceLog returns the size and text of this process's race detector log.
func raceLog() string {
	p := os.Getenv("VH_RACELOG")
	if p == "" {
		return ""
	}
	b, _ := os.ReadFile(fmt.Sprintf("%s.%d", p, os.Getpid()))
	return string(b)
}

// Child serves cases named on stdin until it closes, then writes its result.
func Child(p *Prop, tier string, seed uint64, out string) {
	debug.SetGCPercent(200)
	if !p.Race {
		// runaway allocation ends this process, with a stack, not the sandbox
		lim := syscall.Rlimit{Cur: memLimit, Max: memLimit}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	rec := NewRec()
	type cur struct {
		mu    sync.Mutex
		start float64
		limit float64
		on    bool
		gen   int
	}
	var c cur
	var flush sync.Mutex
	write := func() {
		flush.Lock()
		defer flush.Unlock()
		b, _ := json.Marshal(rec.Result())
		os.WriteFile(out, b, 0o644)
	}
	var curKey string
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			c.mu.Lock()
			hang := c.on && cpuNow()-c.start > c.limit
			limit := c.limit
			key := curKey
			c.mu.Unlock()
			if hang {
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				fmt.Fprintf(os.Stdout, "\nHANG %s used more than %.0f CPU seconds\n", key, limit)
				os.Stderr.Write(buf)
				os.Exit(97)
			}
		}
	}()
	in := bufio.NewScanner(os.Stdin)
	races := len(raceLog())
	for in.Scan() {
		f := strings.Fields(in.Text())
		if len(f) != 2 {
			continue
		}
		wi, _ := strconv.Atoi(f[0])
		idx, _ := strconv.Atoi(f[1])
		w := &p.Workloads[wi]
		limit := w.CPUSeconds
		if limit == 0 {
			limit = defaultCPU
		}
		c.mu.Lock()
		c.start, c.limit, c.on = cpuNow(), limit, true
		curKey = fmt.Sprintf("%s#%d", w.Name, idx)
		c.mu.Unlock()
		RunCase(rec, p, w, count(w, tier), idx, seed, tier)
		c.mu.Lock()
		c.on = false
		c.mu.Unlock()
		if l := raceLog(); len(l) > races {
			rec.mu.Lock()
			rec.viol = append(rec.viol, Violation{Prop: p.ID, Workload: w.Name, Case: idx, Seed: seed, Tier: tier,
				Key: w.Name + "/data-race", What: "the race detector reported a data race", Stack: l[races:]})
			rec.mu.Unlock()
			races = len(l)
		}
		rec.mu.Lock()
		nv := len(rec.viol)
		rec.mu.Unlock()
		fmt.Fprintf(os.Stdout, "\nDONE %d\n", nv)
	}
	write()
}

type item struct{ wl, idx int }

// Outcome of a whole check.
type Outcome struct {
	Result
	Inconclusive []string
}

type worker struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	file   string
	stderr *tail
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 1<<17 {
		// keep the head (first panic) and the tail
		t.b = append(append([]byte(nil), t.b[:1<<15]...), t.b[len(t.b)-(1<<15):]...)
	}
	return len(p), nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.b)
}

func startWorker(self string, p *Prop, tier string, seed uint64, dir string, n int) (*worker, error) {
	w := &worker{file: filepath.Join(dir, fmt.Sprintf("out%d.json", n)), stderr: &tail{}}
	w.cmd = exec.Command(self, "child", p.ID, tier, fmt.Sprint(seed), w.file)
	w.cmd.Stderr = w.stderr
	gmp := "2"
	if p.Race {
		gmp = "4"
	}
	w.cmd.Env = append(os.Environ(), "GOMAXPROCS="+gmp, "GOTRACEBACK=all",
		"VH_RACELOG="+filepath.Join(dir, "race"),
		"GORACE=halt_on_error=0 exitcode=0 log_path="+filepath.Join(dir, "race"))
	var err error
	if w.in, err = w.cmd.StdinPipe(); err != nil {
		return nil, err
	}
	so, err := w.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	w.out = bufio.NewReaderSize(so, 1<<16)
	return w, w.cmd.Start()
}

// reply waits for the worker's answer to one item.
func (w *worker) reply() (string, error) {
	for {
		l, err := w.out.ReadString('\n')
		if strings.HasPrefix(l, "DONE ") || strings.HasPrefix(l, "HANG ") {
			return strings.TrimSpace(l), nil
		}
		if err != nil {
			return "", err
		}
	}
}

func (w *worker) collect() (Result, bool) {
	var r Result
	b, err := os.ReadFile(w.file)
	if err != nil {
		return r, false
	}
	return r, json.Unmarshal(b, &r) == nil
}

// Execute runs every case of the property over worker processes.
func Execute(self string, p *Prop, tier string, seed uint64, workers int, only *item) (Outcome, error) {
	dir, err := os.MkdirTemp("", "vh-"+p.ID+"-")
	if err != nil {
		return Outcome{}, err
	}
	defer os.RemoveAll(dir)
	var items []item
	if only != nil {
		items = []item{*only}
		workers = 1
	} else {
		for wi := range p.Workloads {
			for i := 0; i < count(&p.Workloads[wi], tier); i++ {
				items = append(items, item{wi, i})
			}
		}
		// interleave the workloads deterministically, first cases first
		sort.SliceStable(items, func(a, b int) bool {
			fa := float64(items[a].idx) / float64(count(&p.Workloads[items[a].wl], tier))
			fb := float64(items[b].idx) / float64(count(&p.Workloads[items[b].wl], tier))
			return fa < fb
		})
	}
	var (
		mu    sync.Mutex
		next  int
		nviol int
		out   Outcome
		dist  = map[uint64]struct{}{}
		serr  error
		wg    sync.WaitGroup
		seq   int
	)
	out.Events = map[string]int64{}
	merge := func(r Result) {
		mu.Lock()
		defer mu.Unlock()
		out.Cases += r.Cases
		for k, v := range r.Events {
			out.Events[k] += v
		}
		for _, d := range r.Distinct {
			dist[d] = struct{}{}
		}
		out.Samples = append(out.Samples, r.Samples...)
		out.Violations = append(out.Violations, r.Violations...)
	}
	take := func() (item, bool) {
		mu.Lock()
		defer mu.Unlock()
		if next >= len(items) || nviol >= maxViolates {
			return item{}, false
		}
		it := items[next]
		next++
		return it, true
	}
	crashed := func(it item, w *worker, why string) {
		mu.Lock()
		defer mu.Unlock()
		nviol++
		wl := &p.Workloads[it.wl]
		key, what := "crash", "the process running the case died: "+why
		if strings.HasPrefix(why, "HANG") {
			key, what = "hang", why
		}
		out.Violations = append(out.Violations, Violation{Prop: p.ID, Workload: wl.Name, Case: it.idx, Seed: seed, Tier: tier,
			Key: wl.Name + "/" + key, What: what, Stack: ShortStack(w.stderr.String())})
	}
	// run drives one worker until the items end or the worker dies;
	// it returns false when a new worker is needed.
	run := func(w *worker) bool {
		seen := 0
		for {
			it, ok := take()
			if !ok {
				w.in.Close()
				done := make(chan error, 1)
				go func() { done <- w.cmd.Wait() }()
				select {
				case <-done:
				case <-time.After(60 * time.Second):
					w.cmd.Process.Kill()
					<-done
				}
				if r, ok := w.collect(); ok {
					merge(r)
				} else {
					mu.Lock()
					out.Inconclusive = append(out.Inconclusive, "a worker left no result: "+ShortStack(w.stderr.String()))
					mu.Unlock()
				}
				return true
			}
			fmt.Fprintf(w.in, "%d %d\n", it.wl, it.idx)
			type ans struct {
				l   string
				err error
			}
			ch := make(chan ans, 1)
			go func() { l, e := w.reply(); ch <- ans{l, e} }()
			select {
			case a := <-ch:
				if a.err != nil || strings.HasPrefix(a.l, "HANG ") {
					werr := w.cmd.Wait()
					why := a.l
					if a.err != nil {
						why = fmt.Sprint(werr)
					}
					if strings.Contains(fmt.Sprint(werr), "killed") && a.err != nil {
						// ended from outside (memory guard): not a verdict on the code
						mu.Lock()
						out.Inconclusive = append(out.Inconclusive, fmt.Sprintf("worker killed during %s#%d", p.Workloads[it.wl].Name, it.idx))
						mu.Unlock()
						return false
					}
					crashed(it, w, why)
					return false
				}
				n, _ := strconv.Atoi(strings.TrimPrefix(a.l, "DONE "))
				if n > seen {
					mu.Lock()
					nviol += n - seen
					mu.Unlock()
					seen = n
				}
			case <-time.After(wallGuard):
				w.cmd.Process.Kill()
				<-ch
				w.cmd.Wait()
				mu.Lock()
				out.Inconclusive = append(out.Inconclusive, fmt.Sprintf("no answer from %s#%d within the wall-clock guard", p.Workloads[it.wl].Name, it.idx))
				mu.Unlock()
				return false
			}
		}
	}
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				seq++
				id := seq
				mu.Unlock()
				w, err := startWorker(self, p, tier, seed, dir, id)
				if err != nil {
					mu.Lock()
					serr = err
					mu.Unlock()
					return
				}
				if run(w) {
					return
				}
			}
		}()
	}
	wg.Wait()
	if serr != nil {
		return out, serr
	}
	for d := range dist {
		out.Distinct = append(out.Distinct, d)
	}
	sort.Strings(out.Samples)
	sort.SliceStable(out.Violations, func(a, b int) bool {
		x, y := out.Violations[a], out.Violations[b]
		if x.Workload != y.Workload {
			return x.Workload < y.Workload
		}
		return x.Case < y.Case
	})
	return out, nil
}

// ExecuteOne re-runs a single recorded case in its own process.
func ExecuteOne(self string, p *Prop, v Violation) (Outcome, error) {
	for wi := range p.Workloads {
		if p.Workloads[wi].Name == v.Workload {
			return Execute(self, p, v.Tier, v.Seed, 1, &item{wi, v.Case})
		}
	}
	return Outcome{}, fmt.Errorf("no workload %s", v.Workload)
}

// Known is one recorded finding.
type Known struct{ Prop, Key, What string }

// LoadKnown reads "finding: property=<id> key=<key> <what>" lines.
func LoadKnown(path string) ([]Known, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	var ks []Known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "finding: "), " ", 3)
		if len(f) == 3 && strings.HasPrefix(f[0], "property=") && strings.HasPrefix(f[1], "key=") {
			ks = append(ks, Known{strings.TrimPrefix(f[0], "property="), strings.TrimPrefix(f[1], "key="), f[2]})
		}
	}
	return ks, nil
}

// Main runs one check and returns its exit code.
func Main(self string, p *Prop, tier string, seed uint64, verif string, workers int) int {
	start := time.Now()
	known, err := LoadKnown(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		fmt.Println("cannot read the known findings:", err)
		return 2
	}
	out, err := Execute(self, p, tier, seed, workers, nil)
	if err != nil {
		fmt.Println("cannot run:", err)
		return 2
	}
	var fresh []Violation
	kf := map[string]string{}
	for _, v := range out.Violations {
		matched := false
		for _, k := range known {
			if k.Prop == p.ID && k.Key == v.Key {
				matched = true
				kf[k.Key] = k.What
			}
		}
		if !matched {
			fresh = append(fresh, v)
		}
	}
	for _, k := range known {
		if w, ok := kf[k.Key]; ok && k.Prop == p.ID {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, w)
			delete(kf, k.Key)
		}
	}
	if len(fresh) == 0 {
		for k, n := range p.Need {
			var seen int64
			for _, alt := range strings.Split(k, "|") {
				seen += out.Events[alt]
			}
			if seen < n {
				out.Inconclusive = append(out.Inconclusive, fmt.Sprintf("only %d %q events observed, %d needed", seen, k, n))
			}
		}
	}
	cov := map[string]any{
		"evaluations":         out.Cases,
		"distinct_nontrivial": len(out.Distinct),
		"rule":                p.Rule,
		"samples":             out.Samples,
		"events":              out.Events,
		"inconclusive":        out.Inconclusive,
		"workloads":           workloadNames(p, tier),
	}
	if s := os.Getenv("VH_COVERAGE"); s != "" {
		cov["statement_coverage_of_gm"] = s
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": cov, "assumptions": p.Assume, "wall_s": time.Since(start).Seconds(),
		"violations": len(fresh),
	}
	if ev["assumptions"] == nil {
		ev["assumptions"] = []string{}
	}
	if out.Samples == nil {
		cov["samples"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	evdir := filepath.Join(verif, "evidence")
	os.MkdirAll(evdir, 0o755)
	if err := os.WriteFile(filepath.Join(evdir, p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 2
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d distinct, %d violations, %d inconclusive, %.1fs\n",
		p.ID, tier, seed, out.Cases, len(out.Distinct), len(fresh), len(out.Inconclusive), time.Since(start).Seconds())
	if len(fresh) > 0 {
		rdir := filepath.Join(evdir, "replay")
		os.MkdirAll(rdir, 0o755)
		seen := map[string]bool{}
		for _, v := range fresh {
			if seen[v.Key] {
				continue
			}
			seen[v.Key] = true
			path := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", p.ID, len(seen)))
			vb, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(path, append(vb, '\n'), 0o644)
			fmt.Printf("  %s case %d: %s\n", v.Key, v.Case, strings.ReplaceAll(clip(v.What, 300), "\n", " "))
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
			if len(seen) >= 5 {
				break
			}
		}
		return 1
	}
	if len(out.Inconclusive) > 0 {
		for _, s := range out.Inconclusive {
			fmt.Println("INCONCLUSIVE:", clip(s, 500))
		}
		return 2
	}
	return 0
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func workloadNames(p *Prop, tier string) map[string]int {
	m := map[string]int{}
	for i := range p.Workloads {
		m[p.Workloads[i].Name] = count(&p.Workloads[i], tier)
	}
	return m
}
