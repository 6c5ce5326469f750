package props

import (
	"crypto/rand"
	"fmt"
	"log"
	mrand "math/rand/v2"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/ZZMarquis/gm/cryptobyte"
	"github.com/ZZMarquis/gm/sm2"
	"github.com/ZZMarquis/gm/sm2/cert"
	"github.com/ZZMarquis/gm/sm3"
	"github.com/ZZMarquis/gm/sm4"

	"vharness/mon"
	"vharness/ref"
)

// heavyElsewhere lists workloads whose single cases take long.
var heavyElsewhere = map[string]bool{"C01 huge-write": true, "C01 long-stream": true, "C28 longest-key": true}

func init() {
	late = append(late, func() {
		// The workloads of the other properties go where the operations here
		// do not: retries, small curves, scripted randomness. What they say
		// about results does not matter here.
		var p *mon.Prop
		for _, q := range registry {
			if q.ID == "C30" {
				p = q
			}
		}
		for _, q := range registry {
			if q.Race || q.Alone || q.ID == "C31" {
				continue
			}
			for _, w := range q.Workloads {
				if heavyElsewhere[q.ID+" "+w.Name] {
					continue
				}
				q, w := q, w
				n := (w.Quick + 39) / 40
				if n > 40 {
					n = 40
				}
				p.Workloads = append(p.Workloads, mon.Workload{Name: "during " + q.ID + " " + w.Name, Quick: 1, Thorough: 30, CPUSeconds: 600, Run: func(c *mon.Case) {
					quietly(c, q.ID+" "+w.Name, func() {
						for i := 0; i < n; i++ {
							// the reports of these cases go nowhere
							mon.RunCase(mon.NewRec(), q, &w, w.Quick, c.IntN(w.Quick), c.Uint64(), "quick")
							c.Ev("other cases")
						}
					})
					c.Distinct(q.ID, w.Name, c.Idx)
				}})
			}
		}
		p.Need["other cases"] = 1000
	})
	register(&mon.Prop{
		ID:    "C30",
		Alone: true,
		Rule:  "windows of calls with fresh arguments each, successful and failing, between which the live heap, goroutines, open files, everything written to the standard streams, files in the working and temporary directories, the environment and process-wide settings are compared; objects that process a stream are weighed before and after it; distinct by operation and arguments",
		Workloads: []mon.Workload{
			{Name: "operations", Quick: len(allOps), Thorough: 6 * len(allOps), CPUSeconds: 300, Run: c30Operations},
			{Name: "hostile", Quick: 24, Thorough: 400, CPUSeconds: 300, Run: c30Hostile},
			{Name: "streams", Quick: 8, Thorough: 80, CPUSeconds: 300, Run: c30Streams},
		},
		Need: map[string]int64{"windows": 200, "calls": 6000, "weighed": 40},
	})
}

// live is the size of the reachable heap.
func live() int64 {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

// openFiles lists the open files of this process.
func openFiles() string {
	var l []string
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return ""
	}
	for _, e := range es {
		if t, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && !strings.HasSuffix(t, "/fd") && !strings.Contains(t, "/proc/") {
			l = append(l, e.Name()+" "+t)
		}
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// settings describes what any package may change for the whole process.
func settings(dir string) string {
	wd, _ := os.Getwd()
	gc := debug.SetGCPercent(100)
	debug.SetGCPercent(gc)
	mem := debug.SetMemoryLimit(-1)
	var files []string
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		files = append(files, e.Name())
	}
	return fmt.Sprintf("directory %s; processors %d; collector %d %d; random source %p %T; zone %p %s; log %d %q; environment %q; streams %p %p %p; files %q; arguments %q",
		wd, runtime.GOMAXPROCS(0), gc, mem, rand.Reader, rand.Reader, time.Local, time.Local, log.Flags(), log.Prefix(), os.Environ(), os.Stdin, os.Stdout, os.Stderr, files, os.Args)
}

// quietly runs f with the standard streams and the directories of the process
// diverted, and reports what it left behind.
func quietly(c *mon.Case, what string, f func()) {
	dir, err := os.MkdirTemp("", "vh-leave-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	here := dir + "/here"
	os.Mkdir(here, 0o755)
	caught, err := os.CreateTemp(dir, "streams")
	if err != nil {
		panic(err)
	}
	defer caught.Close()
	wd, _ := os.Getwd()
	tmp, had := os.LookupEnv("TMPDIR")
	os.Chdir(here)
	os.Setenv("TMPDIR", here)
	save := [2]int{}
	for i := range save {
		if save[i], err = syscall.Dup(i + 1); err != nil {
			panic(err)
		}
		syscall.Dup3(int(caught.Fd()), i+1, 0)
	}
	defer func() {
		for i := range save {
			syscall.Dup3(save[i], i+1, 0)
			syscall.Close(save[i])
		}
		os.Chdir(wd)
		if had {
			os.Setenv("TMPDIR", tmp)
		} else {
			os.Unsetenv("TMPDIR")
		}
	}()
	gor, fds, set := runtime.NumGoroutine(), openFiles(), settings(here)
	f()
	if g := runtime.NumGoroutine(); g > gor {
		for i := 0; i < 40 && g > gor; i++ {
			time.Sleep(50 * time.Millisecond)
			g = runtime.NumGoroutine()
		}
		if g > gor {
			buf := make([]byte, 1<<16)
			c.Note("goroutines", string(buf[:runtime.Stack(buf, true)]))
			c.Fail("goroutines", "%s leaves %d goroutines behind", what, g-gor)
		}
	}
	if now := openFiles(); now != fds {
		c.Fail("files", "%s leaves files open: %s", what, firstDiff(fds, now))
	}
	if now := settings(here); now != set {
		c.Fail("settings", "%s changes the process: %s", what, firstDiff(set, now))
	}
	if st, err := caught.Stat(); err == nil && st.Size() > 0 {
		b := make([]byte, 300)
		n, _ := caught.ReadAt(b, 0)
		c.Fail("output", "%s writes to the standard streams: %q", what, b[:n])
	}
}

// windows runs calls in equal windows and fails if the heap keeps growing.
// Growth that is seen over the first five windows is confirmed over two longer
// stretches, each more than double what went before: whatever is set up once
// does not show in both, and a table that grows by doubling does.
func windows(c *mon.Case, what string, calls int, call func(i int)) {
	ends := []int{1, 2, 3, 4, 5, 13, 29}
	size := []int64{}
	quietly(c, what, func() {
		size = append(size, live())
		done := 0
		for _, e := range ends {
			if e == 13 && size[5]-size[1] <= int64(24*4*calls+1024) {
				break
			}
			for ; done < e; done++ {
				for i := 0; i < calls; i++ {
					call(done*calls + i)
					c.Ev("calls")
				}
				c.Ev("windows")
			}
			size = append(size, live())
		}
	})
	c.Sample("%s: live heap after %v windows of %d calls: %v", what, ends, calls, size)
	if len(size) > 6 && size[6]-size[5] > int64(24*8*calls+1024) && size[7]-size[6] > int64(24*16*calls+1024) {
		c.Fail("retained", "calls of %s leave data behind: live heap after %v windows of %d calls: %v", what, ends, calls, size)
	}
}

func c30Operations(c *mon.Case) {
	op := allOps[c.Idx%len(allOps)]
	c.Note("operation", op.name)
	seen := make([][16]byte, 29*24) // noted down later, so as not to weigh it
	windows(c, op.name, 24, func(i int) {
		k := c.Sub(fmt.Sprint("call", i))
		fx := newFx(k, true)
		for j := 0; j < 3; j++ {
			op.run(fx, mrand.New(mrand.NewPCG(k.Uint64(), 1)))
		}
		copy(seen[i][:], fx.Key)
	})
	for _, k := range seen {
		if k == [16]byte{} {
			continue // the longer stretches were not run
		}
		c.Distinct(op.name, k[:])
	}
}

// c30Hostile gives refused inputs to everything that reads bytes.
func c30Hostile(c *mon.Case) {
	priv, pub := gmPriv(num(77)), gmPub(ref.SM2.MulG(num(77)))
	seen := make([][16]byte, 29*120)
	windows(c, "refused input", 120, func(i int) {
		k := c.Sub(fmt.Sprint("call", i))
		der, _ := c22Seed(k)
		roots, _ := parseTree(der, 0)
		mutateTree(k, roots)
		m := roots[0].enc()
		if len(m) > 1<<14 {
			m = m[:1<<14]
		}
		if k.IntN(2) == 0 {
			m = promise(k, m)
		}
		for len(m) < 16 {
			m = append(m, 0)
		}
		cert.ParseCertificate(m)
		cert.ParseCertificateRequest(m)
		cert.VerifyDERCSRSign(m, m)
		sm2.UnmarshalSign(m)
		sm2.UnmarshalCipher(m, sm2.C1C3C2)
		sm2.Decrypt(priv, m, sm2.C1C2C3)
		sm2.Verify(pub, nil, m, k.Bytes(64))
		sm2.RawBytesToPublicKey(k.Bytes(64))
		sm4.NewCipher(m)
		sm4.CBCEncrypt(m[:16], m[:15], m)
		s := cryptobyte.String(m)
		for _, o := range readOpsOf {
			o.run(&s)
			s = m
		}
		mon.Panics(func() {
			b := cryptobyte.NewFixedBuilder(make([]byte, 0, 3))
			b.AddUint16LengthPrefixed(func(b *cryptobyte.Builder) { b.AddBytes(m) })
			b.BytesOrPanic()
		})
		h := ref.SM3(m)
		copy(seen[i][:], h)
	})
	for _, k := range seen {
		if k == [16]byte{} {
			continue // the longer stretches were not run
		}
		c.Distinct(k[:])
	}
}

// c30Streams weighs objects that live for long.
func c30Streams(c *mon.Case) {
	h := sm3.New()
	k, err := sm4.NewCipher(c.Bytes(16))
	if err != nil {
		c.Fail("refused", "%v", err)
	}
	priv := gmPriv(scalar(c))
	pub := sm2.CalculatePubKey(priv)
	der := seedCert(c)
	b := make([]byte, 16)
	chunk := c.Bytes(1 + c.IntN(5000))
	for _, o := range []struct {
		name string
		n    int
		f    func()
	}{
		{"a digest after writes", 2000, func() { h.Write(chunk) }},
		{"a digest after small writes", 200000, func() { h.Write(chunk[:1]) }},
		{"a digest after sums", 20000, func() { h.Sum(nil) }},
		{"a digest after resets", 20000, func() { h.Reset(); h.Write(chunk[:1]) }},
		{"a cipher after blocks", 100000, func() { k.Encrypt(b, b); k.Decrypt(b, b); k.Encrypt(b, b) }},
		{"a key after signatures", 200, func() {
			m := c.Bytes(20)
			s, _ := sm2.Sign(priv, m, m)
			sm2.Verify(pub, m, m, s)
			x, _ := sm2.Encrypt(pub, m, sm2.C1C3C2)
			sm2.Decrypt(priv, x, sm2.C1C3C2)
		}},
		{"parsed certificates", 2000, func() { cert.ParseCertificate(der) }},
	} {
		windows(c, o.name, o.n/5, func(int) { o.f() })
		c.Ev("weighed")
	}
	// and what a digest holds on to at once
	big := make([]byte, 8<<20)
	before := live()
	g := sm3.New()
	g.Write(big)
	g.Sum(nil)
	if d := live() - before; d > 1<<16 {
		c.Fail("retained", "a digest holds on to %d bytes after a write of %d", d, len(big))
	}
	g.Reset()
	runtime.KeepAlive(g)
	runtime.KeepAlive(big)
	runtime.KeepAlive([]any{h, k, priv, pub})
	c.Ev("weighed")
	c.Distinct(chunk)
}
