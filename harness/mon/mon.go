// Package mon is the monitoring framework: it drives deterministic workload
// cases in sharded child processes, lets oracles record what they observed,
// and turns crashes, runaway loops and oracle failures into verdicts.
package mon

import (
	"crypto/rand"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	mrand "math/rand/v2"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
)

// Workload is a list of N deterministic cases; case i depends only on the
// seed, the property, the workload name and i.
type Workload struct {
	Name     string
	Quick    int
	Thorough int
	// CPUSeconds bounds one case (default 60).
	CPUSeconds float64
	// Procs > 0 raises GOMAXPROCS for the shard running it.
	Run func(c *Case)
}

// Prop is one property: its workloads and the least the monitors must have
// seen for a quiet run to count as "held" rather than "inconclusive".
type Prop struct {
	ID        string
	Rule      string
	Workloads []Workload
	Need      map[string]int64
	Race      bool // run under the race detector build
	Alone     bool // measures this process, not for other platforms
	Assume    []string
}

// Violation is one oracle failure.
type Violation struct {
	Prop     string            `json:"property"`
	Workload string            `json:"workload"`
	Case     int               `json:"case"`
	Seed     uint64            `json:"seed"`
	Tier     string            `json:"tier"`
	Key      string            `json:"key"`
	What     string            `json:"what"`
	Detail   map[string]string `json:"detail,omitempty"`
	Stack    string            `json:"stack,omitempty"`
}

// Result is what one shard observed.
type Result struct {
	Cases      int64            `json:"cases"`
	Events     map[string]int64 `json:"events"`
	Distinct   []uint64         `json:"distinct"`
	Samples    []string         `json:"samples"`
	Violations []Violation      `json:"violations"`
}

// Rec accumulates a shard's observations.
type Rec struct {
	mu       sync.Mutex
	events   map[string]int64
	distinct map[uint64]struct{}
	samples  []string
	perWL    map[string]int
	viol     []Violation
	cases    int64
}

func NewRec() *Rec {
	return &Rec{events: map[string]int64{}, distinct: map[uint64]struct{}{}, perWL: map[string]int{}}
}

func (r *Rec) Result() Result {
	res := Result{Cases: r.cases, Events: r.events, Samples: r.samples, Violations: r.viol}
	for k := range r.distinct {
		res.Distinct = append(res.Distinct, k)
	}
	sort.Slice(res.Distinct, func(i, j int) bool { return res.Distinct[i] < res.Distinct[j] })
	return res
}

type failSentinel struct{}

// Case is one running case.
type Case struct {
	Prop, WL string
	Idx      int
	N        int // number of cases of this workload in this tier
	Seed     uint64
	Tier     string
	*mrand.Rand
	rec    *Rec
	rng    *RNG
	detail map[string]string
	// Slots keeps objects that a case reuses for other values.
	Slots  map[string]any
	frozen map[string]*Frozen
	no     int    // the number of the case, whatever Idx says
	evp    string // goes before the names of events
}

// Part is a workload that runs every so-manieth case of another property's
// workload: n of them, spread over the whole of it.
func Part(p *Prop, w Workload, n func(w *Workload, tier string) int) Workload {
	q, t := n(&w, "quick"), n(&w, "thorough")
	out := Workload{Name: p.ID + " " + w.Name, Quick: q, Thorough: t, CPUSeconds: w.CPUSeconds}
	if out.CPUSeconds == 0 {
		out.CPUSeconds = defaultCPU
	}
	out.CPUSeconds *= 4
	out.Run = func(c *Case) {
		full := count(&w, c.Tier)
		step := full / c.N
		if step < 1 {
			step = 1
		}
		c.Idx = (int(int64(c.no)*int64(full)/int64(c.N)) + int(c.Seed%uint64(step))) % full
		c.N = full
		c.evp = p.ID + " "
		c.Ev("cases")
		w.Run(c)
	}
	return out
}

// Thorough reports whether the thorough tier runs.
func (c *Case) Thorough() bool { return c.Tier == "thorough" }

func seed32(parts ...string) [32]byte {
	var s [32]byte
	for i := 0; i < 4; i++ {
		h := fnv.New64a()
		fmt.Fprintf(h, "%d|", i)
		for _, p := range parts {
			io.WriteString(h, p)
			h.Write([]byte{0})
		}
		x := h.Sum64()
		// finalise (splitmix)
		x ^= x >> 30
		x *= 0xbf58476d1ce4e5b9
		x ^= x >> 27
		x *= 0x94d049bb133111eb
		x ^= x >> 31
		binary.LittleEndian.PutUint64(s[i*8:], x)
	}
	return s
}

// RunCase runs one case, converting panics into violations.
func RunCase(rec *Rec, p *Prop, w *Workload, n, idx int, seed uint64, tier string) {
	key := []string{fmt.Sprint(seed), p.ID, w.Name, fmt.Sprint(idx)}
	c := &Case{Prop: p.ID, WL: w.Name, Idx: idx, no: idx, N: n, Seed: seed, Tier: tier, rec: rec,
		Rand:   mrand.New(mrand.NewChaCha8(seed32(append(key, "case")...))),
		detail: map[string]string{}}
	c.rng = &RNG{src: mrand.NewChaCha8(seed32(append(key, "rng")...)), Budget: 200000}
	old := rand.Reader
	rand.Reader = c.rng
	defer func() {
		rand.Reader = old
		rec.mu.Lock()
		rec.cases++
		rec.mu.Unlock()
		if r := recover(); r != nil {
			if _, ok := r.(failSentinel); ok {
				return
			}
			c.record("panic", fmt.Sprintf("unexpected panic: %v", r), string(debug.Stack()))
		}
	}()
	w.Run(c)
}

func (c *Case) record(key, what, stack string) {
	c.rec.mu.Lock()
	defer c.rec.mu.Unlock()
	d := map[string]string{}
	for k, v := range c.detail {
		d[k] = v
	}
	c.rec.viol = append(c.rec.viol, Violation{Prop: c.Prop, Workload: c.WL, Case: c.no, Seed: c.Seed, Tier: c.Tier,
		Key: c.WL + "/" + key, What: what, Detail: d, Stack: stack})
}

// Note attaches a value to any violation this case reports.
func (c *Case) Note(k string, v any) {
	switch x := v.(type) {
	case []byte:
		if len(x) > 512 {
			c.detail[k] = fmt.Sprintf("%s...(%d bytes)", hex.EncodeToString(x[:512]), len(x))
		} else {
			c.detail[k] = hex.EncodeToString(x)
		}
	default:
		s := fmt.Sprintf("%v", x)
		if len(s) > 2000 {
			s = s[:2000] + "..."
		}
		c.detail[k] = s
	}
}

// Fail records a violation and ends the case.
func (c *Case) Fail(key, format string, a ...any) {
	c.record(key, fmt.Sprintf(format, a...), "")
	panic(failSentinel{})
}

// Check fails the case when ok is false.
func (c *Case) Check(ok bool, key, format string, a ...any) {
	if !ok {
		c.Fail(key, format, a...)
	}
}

// Ev counts an observed event.
func (c *Case) Ev(name string) { c.EvN(name, 1) }

func (c *Case) EvN(name string, n int64) {
	c.rec.mu.Lock()
	c.rec.events[c.evp+name] += n
	c.rec.mu.Unlock()
}

// Distinct registers the signature of a non-trivial execution.
func (c *Case) Distinct(parts ...any) {
	h := fnv.New64a()
	io.WriteString(h, c.WL)
	for _, p := range parts {
		switch x := p.(type) {
		case []byte:
			h.Write(x)
		default:
			fmt.Fprint(h, x)
		}
		h.Write([]byte{0xfe})
	}
	c.rec.mu.Lock()
	if len(c.rec.distinct) < 400000 {
		c.rec.distinct[h.Sum64()] = struct{}{}
	}
	c.rec.mu.Unlock()
}

// Sample keeps one or two written-out cases per workload.
func (c *Case) Sample(format string, a ...any) {
	c.rec.mu.Lock()
	defer c.rec.mu.Unlock()
	if c.rec.perWL[c.WL] < 1 {
		c.rec.perWL[c.WL]++
		s := fmt.Sprintf(format, a...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.rec.samples = append(c.rec.samples, fmt.Sprintf("%s#%d: %s", c.WL, c.no, s))
	}
}

// Panics runs f and reports whether (and with what) it panicked.
func Panics(f func()) (v any, panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(failSentinel); ok {
				panic(r)
			}
			v, panicked = r, true
		}
	}()
	f()
	return nil, false
}

// NoPanic fails the case if f panics.
func (c *Case) NoPanic(key string, f func()) {
	if v, p := Panics(f); p {
		c.Fail("panic/"+key, "%s panicked: %v", key, v)
	}
}

// RNG replaces crypto/rand.Reader: deterministic, scriptable, fault-injecting,
// and with a budget that turns an endless retry loop into a verdict.
type RNG struct {
	mu      sync.Mutex
	src     *mrand.ChaCha8
	Script  []byte // served first
	FailAt  int    // after this many bytes served, reads fail (0 = never)
	MaxRead int    // serve at most this many bytes per Read (0 = all)
	Served  int
	Reads   int
	Failed  int  // number of failing reads
	Once    bool // only the first read past FailAt fails
	Budget  int
	Record  bool
	Log     []byte
}

// ErrRNG is the injected randomness failure.
var ErrRNG = errors.New("injected randomness failure")

func (r *RNG) Read(p []byte) (int, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Reads++
	if r.Budget > 0 && r.Reads > r.Budget {
		panic(fmt.Sprintf("randomness read %d times in one case: a retry loop does not end", r.Reads))
	}
	if (r.FailAt != 0 && r.Served >= r.FailAt || r.FailAt < 0) && !(r.Once && r.Failed > 0) {
		r.Failed++
		return 0, ErrRNG
	}
	n := len(p)
	if r.MaxRead > 0 && n > r.MaxRead {
		n = r.MaxRead
	}
	if r.FailAt > 0 && r.Served < r.FailAt && r.Served+n > r.FailAt {
		n = r.FailAt - r.Served
	}
	k := copy(p[:n], r.Script)
	r.Script = r.Script[k:]
	r.src.Read(p[k:n])
	r.Served += n
	if r.Record {
		r.Log = append(r.Log, p[:n]...)
	}
	return n, nil
}

// Sub is a case of its own random stream, the same for the same label.
func (c *Case) Sub(label string) *Case {
	d := *c
	d.Rand = mrand.New(mrand.NewChaCha8(seed32(fmt.Sprint(c.Seed), c.Prop, c.WL, fmt.Sprint(c.Idx), "sub", label)))
	return &d
}

// Standalone is a case outside any run, for helper processes.
func Standalone(seed uint64, prop, wl string, idx int) *Case {
	return &Case{Prop: prop, WL: wl, Idx: idx, Seed: seed, Tier: "quick", rec: NewRec(), detail: map[string]string{},
		Rand: mrand.New(mrand.NewChaCha8(seed32(fmt.Sprint(seed), prop, wl, fmt.Sprint(idx), "standalone")))}
}

// RNG returns the case's crypto/rand.Reader replacement.
func (c *Case) RNG() *RNG { return c.rng }

// Stream makes an independent deterministic reader.
func (c *Case) Stream(label string) *RNG {
	return &RNG{src: mrand.NewChaCha8(seed32(fmt.Sprint(c.Seed), c.Prop, c.WL, fmt.Sprint(c.Idx), "stream", label)), Budget: 200000}
}

// UseRNG installs r as crypto/rand.Reader until the case ends.
func (c *Case) UseRNG(r *RNG) { c.rng = r; rand.Reader = r }

// Fill overwrites b with random bytes.
func (c *Case) Fill(b []byte) { copy(b, c.Bytes(len(b))) }

// Bytes returns n random bytes.
func (c *Case) Bytes(n int) []byte {
	b := make([]byte, n)
	i := 0
	for ; i+8 <= n; i += 8 {
		binary.LittleEndian.PutUint64(b[i:], c.Uint64())
	}
	for ; i < n; i++ {
		b[i] = byte(c.Uint64())
	}
	return b
}

// Msg returns n bytes of a randomly chosen texture (random, constant,
// counting, sparse), so that data-dependent faults have a chance.
func (c *Case) Msg(n int) []byte {
	b := c.Bytes(n)
	switch c.IntN(8) {
	case 0:
		for i := range b {
			b[i] = 0
		}
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	case 2:
		for i := range b {
			b[i] = byte(i)
		}
	case 3:
		for i := range b {
			if c.IntN(16) != 0 {
				b[i] = 0
			}
		}
	}
	return b
}

// Frozen is a byte slice placed inside canary memory: Check tells whether
// the slice or anything around it, including its spare capacity, changed.
type Frozen struct {
	whole []byte
	copy  []byte
	pre   int
	B     []byte
}

// Freeze copies b into guarded memory, most of the time with spare capacity.
func (c *Case) Freeze(b []byte) *Frozen {
	if b == nil {
		return &Frozen{}
	}
	pre, post := 16+c.IntN(17), 32+c.IntN(33)
	w := make([]byte, pre+len(b)+post)
	for i := range w {
		w[i] = byte(0xA5 ^ i*7)
	}
	copy(w[pre:], b)
	f := &Frozen{whole: w, pre: pre}
	f.set(c, len(b))
	return f
}

func (f *Frozen) set(c *Case, n int) {
	f.B = f.whole[f.pre : f.pre+n]
	if c.IntN(3) == 0 {
		f.B = f.B[:n:n]
	}
	f.copy = append([]byte(nil), f.whole...)
}

// FreezeAs is Freeze in memory that an earlier FreezeAs of the same name in
// this case used, half of the time when it fits.
func (c *Case) FreezeAs(name string, b []byte) *Frozen {
	old := c.frozen[name]
	if b == nil || old == nil || len(old.B) == 0 || len(old.whole)-old.pre < len(b) || c.IntN(2) == 0 {
		f := c.Freeze(b)
		if c.frozen == nil {
			c.frozen = map[string]*Frozen{}
		}
		if f.whole != nil {
			c.frozen[name] = f
		}
		return f
	}
	f := &Frozen{whole: old.whole, pre: old.pre}
	copy(f.whole[f.pre:], b)
	f.set(c, len(b))
	c.frozen[name] = f
	c.Ev("reused-buffer")
	return f
}

// Changed describes the first modification, or "".
func (f *Frozen) Changed() string {
	for i := range f.whole {
		if f.whole[i] != f.copy[i] {
			return fmt.Sprintf("byte at offset %d of %d-byte argument region changed from %02x to %02x (region %d bytes)",
				i-f.pre, len(f.B), f.copy[i], f.whole[i], len(f.whole))
		}
	}
	return ""
}

// Overlaps tells whether b shares memory with the frozen region.
func (f *Frozen) Overlaps(b []byte) bool {
	if cap(b) == 0 || len(f.whole) == 0 {
		return false
	}
	b = b[:cap(b)]
	// overlap test by mutation would disturb; use unsafe-free address trick
	for i := range f.whole {
		if &f.whole[i] == &b[0] || &f.whole[i] == &b[len(b)-1] {
			return true
		}
	}
	return false
}

// Verdict helpers used by the parent.
func ShortStack(s string) string {
	l := strings.Split(s, "\n")
	if len(l) > 40 {
		l = l[:40]
	}
	return strings.Join(l, "\n")
}

func Getenv(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}
