package props

import (
	"bytes"
	"context"
	"crypto/rand"
	"encoding/binary"
	"fmt"
	mrand "math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"vharness/mon"
)

// freeReader is a randomness source without any synchronisation, so that it
// adds no ordering between goroutines that could hide a race.
type freeReader struct{}

func (freeReader) Read(p []byte) (int, error) {
	for i := 0; i < len(p); i += 8 {
		var w [8]byte
		binary.LittleEndian.PutUint64(w[:], mrand.Uint64())
		copy(p[i:], w[:])
	}
	return len(p), nil
}

type step struct {
	op    *anOp
	seed  uint64
	yield int // 0 none, 1 Gosched, 2 a short sleep
}

type outcome struct {
	digest     string
	res        []any
	start, end time.Duration
}

// schedule draws what every goroutine does.
func schedule(c *mon.Case, maxG, budget int, only *anOp) [][]step {
	g := 2 + c.IntN(maxG-1)
	k := 1 + c.IntN(8)
	plan := make([][]step, g)
	shape := c.IntN(4)
	// the operations a case draws from: all, one, two or the cheap ones
	pool := allOps
	switch shape {
	case 1:
		pool = []*anOp{allOps[c.IntN(len(allOps))]}
	case 2:
		pool = []*anOp{allOps[c.IntN(len(allOps))], allOps[c.IntN(len(allOps))]}
	case 3:
		pool = nil
		for _, o := range allOps {
			if o.heavy == 0 {
				pool = append(pool, o)
			}
		}
		k += c.IntN(40)
	}
	if only != nil {
		pool = []*anOp{only}
	}
	cost := 0
	same := c.IntN(2) == 0 // every goroutine in the same order, or its own
	var common []step
	for j := 0; j < k; j++ {
		common = append(common, step{pool[c.IntN(len(pool))], c.Uint64(), 0})
	}
	for i := range plan {
		for j := 0; j < k; j++ {
			s := step{pool[c.IntN(len(pool))], c.Uint64(), 0}
			if same {
				s = common[j]
				if c.IntN(2) == 0 {
					s.seed = c.Uint64()
				}
			}
			if c.IntN(6) == 0 {
				s.yield = 1 + c.IntN(2)
			}
			cost += s.op.heavy
			if j > 0 && cost > budget {
				break
			}
			plan[i] = append(plan[i], s)
		}
	}
	return plan
}

func (s step) run(fx *Fx) (string, []any) {
	return s.op.perform(fx, mrand.New(mrand.NewPCG(s.seed, 7)))
}

// runAll lets the goroutines loose on the shared objects. Nothing here
// orders them but the start and the end.
func runAll(fx *Fx, plan [][]step) [][]outcome {
	out := make([][]outcome, len(plan))
	gate := make(chan struct{})
	done := make(chan struct{}, len(plan))
	base := time.Now()
	for i := range plan {
		out[i] = make([]outcome, len(plan[i]))
		go func(steps []step, res []outcome) {
			defer func() { done <- struct{}{} }()
			<-gate
			for j, s := range steps {
				switch s.yield {
				case 1:
					runtime.Gosched()
				case 2:
					time.Sleep(time.Duration(s.seed % 200000))
				}
				res[j].start = time.Since(base)
				res[j].digest, res[j].res = s.run(fx)
				res[j].end = time.Since(base)
			}
		}(plan[i], out[i])
	}
	close(gate)
	for range plan {
		<-done
	}
	return out
}

// observe reports how the steps actually overlapped.
func observe(c *mon.Case, plan [][]step, out [][]outcome) {
	type ev struct {
		at   time.Duration
		g, j int
	}
	var order []ev
	overlaps := int64(0)
	pairs := map[string]bool{}
	for i := range out {
		for j := range out[i] {
			order = append(order, ev{out[i][j].start, i, j})
			for a := 0; a < i; a++ {
				for b := range out[a] {
					if out[a][b].start < out[i][j].end && out[i][j].start < out[a][b].end {
						overlaps++
						x, y := plan[a][b].op.name, plan[i][j].op.name
						if x > y {
							x, y = y, x
						}
						pairs[x+" || "+y] = true
					}
				}
			}
		}
	}
	sort.Slice(order, func(a, b int) bool { return order[a].at < order[b].at })
	var s strings.Builder
	for _, e := range order {
		fmt.Fprintf(&s, "%d.%d ", e.g, e.j)
	}
	c.Distinct("order", c.Idx, s.String())
	for p := range pairs {
		c.Distinct("pair", p)
	}
	c.EvN("overlapping operation pairs", overlaps)
	c.EvN("operations run concurrently", int64(len(order)))
	c.Sample("%d goroutines, %d operations, %d overlapping pairs, start order %s", len(plan), len(order), overlaps, s.String())
}

// unpredictable results must differ between goroutines.
func checkFresh(c *mon.Case, plan [][]step, out [][]outcome) {
	seen := map[string]string{}
	for i := range plan {
		for j, s := range plan[i] {
			var v []byte
			switch s.op.name {
			case "sm2.Sign", "sm2.SignToRS", "cert.CreateCertificateRequest", "cert.IssueCertificateBySoftCAKey":
				if len(out[i][j].res) > 0 {
					v = []byte(fmt.Sprint(out[i][j].res...))
				}
			case "sm2.Encrypt":
				if len(out[i][j].res) > 0 {
					ct := out[i][j].res[0].([]byte)
					if len(ct) > 65 {
						v = ct[:65]
					}
				}
			}
			if v == nil {
				continue
			}
			c.Ev("randomised results compared")
			if w, dup := seen[string(v)]; dup {
				c.Fail("repeated randomness", "%s in goroutine %d gave the same random result as %s", s.op.name, i, w)
			}
			seen[string(v)] = fmt.Sprintf("%s in goroutine %d", s.op.name, i)
		}
	}
}

func c26Warm(c *mon.Case) {
	rand.Reader = freeReader{}
	fx := newFx(c.Sub("fx"), false)
	plan := schedule(c, 8, 24, nil)
	before := dump(fx)
	procs := []int{1, 2, 4, 8}[c.IntN(4)]
	old := runtime.GOMAXPROCS(procs)
	out := runAll(fx, plan)
	runtime.GOMAXPROCS(old)
	if after := dump(fx); after != before {
		c.Fail("shared objects", "concurrent use changed a shared object: %s", firstDiff(before, after))
	}
	ser := newFx(c.Sub("fx"), false)
	for i := range plan {
		for j, s := range plan[i] {
			want, _ := s.run(ser)
			if got := out[i][j].digest; got != want {
				c.Note("goroutine", i)
				c.Note("step", j)
				c.Fail("result/"+s.op.name, "%s run concurrently gave %q, alone it gives %q", s.op.name, got, want)
			}
			if strings.HasPrefix(want, "panic:") {
				c.Fail("panic/"+s.op.name, "%s: %s", s.op.name, want)
			}
			c.Ev("results equal to the sequential run")
			c.Ev("op " + s.op.name)
		}
	}
	checkFresh(c, plan, out)
	if n, err := strconv.Atoi(os.Getenv("VH_DELAY_SITES")); err == nil && c.Idx == 0 {
		c.EvN("places with injected delays in this build", int64(n))
	}
	observe(c, plan, out)
	c.Ev(fmt.Sprintf("GOMAXPROCS %d", procs))
}

func coldSetup(seed uint64, idx int) (*Fx, [][]step) {
	c := mon.Standalone(seed, "C26", "cold", idx)
	fx := newFx(c.Sub("fx"), true)
	var only *anOp // first every operation against itself
	if idx < len(allOps) {
		only = allOps[idx]
	}
	return fx, schedule(c, 8, 12, only)
}

// Cold is a process whose first library calls all happen at once.
func Cold(seed uint64, idx int) {
	rand.Reader = freeReader{}
	fx, plan := coldSetup(seed, idx)
	before := dump(fx)
	out := runAll(fx, plan)
	for i := range out {
		for j := range out[i] {
			fmt.Printf("STEP %d %d %q\n", i, j, out[i][j].digest)
		}
	}
	if after := dump(fx); after != before {
		fmt.Printf("CHANGED %q\n", firstDiff(before, after))
	}
	fmt.Println("COLD-DONE")
}

func c26Cold(c *mon.Case) {
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	dir, err := os.MkdirTemp("", "vh-cold-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, self, "cold", fmt.Sprint(c.Seed), fmt.Sprint(c.Idx))
	cmd.Env = append(os.Environ(), "GOMAXPROCS="+[]string{"2", "4", "8"}[c.IntN(3)],
		"GORACE=halt_on_error=0 exitcode=0 log_path="+filepath.Join(dir, "race"))
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	err = cmd.Run()
	if logs, _ := filepath.Glob(filepath.Join(dir, "race*")); len(logs) > 0 {
		b, _ := os.ReadFile(logs[0])
		c.Note("report", string(b))
		c.Fail("data-race", "the race detector reported a data race among the first calls of a process")
	}
	if err != nil || !strings.Contains(stdout.String(), "COLD-DONE") {
		c.Note("stderr", stderr.String())
		c.Fail("crash", "a process whose first library calls are concurrent died: %v", err)
	}
	if i := strings.Index(stdout.String(), "CHANGED "); i >= 0 {
		c.Fail("shared objects", "concurrent first use changed a shared object: %s", stdout.String()[i:])
	}
	rand.Reader = freeReader{}
	fx, plan := coldSetup(c.Seed, c.Idx)
	var want strings.Builder
	for i := range plan {
		for j, s := range plan[i] {
			d, _ := s.run(fx)
			line := fmt.Sprintf("STEP %d %d %q\n", i, j, d)
			want.WriteString(line)
			if !strings.Contains(stdout.String(), line) {
				c.Note("process", stdout.String())
				c.Fail("result/"+s.op.name, "%s as one of the first, concurrent calls of a process does not give what it gives alone: %s", s.op.name, line)
			}
			c.Ev("cold results equal to the sequential run")
		}
	}
	c.Ev("cold processes")
	c.Distinct("cold", stdout.Bytes())
}

func init() {
	register(&mon.Prop{
		ID: "C26", Race: true,
		Rule: "every operation run by several goroutines on shared objects must give what it gives alone on equal objects, leave the shared objects as they were, draw its own randomness, and cause no report of the race detector; distinct counts the start orders and the pairs of operations seen overlapping in time",
		Workloads: []mon.Workload{
			{Name: "warm", Quick: 900, Thorough: 15000, CPUSeconds: 240, Run: c26Warm},
			{Name: "cold", Quick: 100, Thorough: 1000, CPUSeconds: 240, Run: c26Cold},
		},
		Need: map[string]int64{"overlapping operation pairs": 1000, "results equal to the sequential run": 2000, "cold processes": 20},
		Assume: []string{
			"the race detector reports only races of the executions that happened",
			"concurrent modification of an object by its owner is outside the property: goroutines share objects read-only",
		},
	})
}
