package props

import (
	"bytes"
	"context"
	"crypto/rand"
	"fmt"
	mrand "math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/ZZMarquis/gm/cryptobyte"
	"github.com/ZZMarquis/gm/sm2"
	"github.com/ZZMarquis/gm/sm2/cert"
	"github.com/ZZMarquis/gm/sm4"
	"github.com/ZZMarquis/gm/util"

	"vharness/mon"
	"vharness/ref"
)

func init() {
	register(&mon.Prop{
		ID:   "C31",
		Rule: "the same operations with equal arguments and an equal random source are run in order, in other orders, twice, after other calls with related, unrelated and malformed arguments, and in processes with another zone, locale, directory, environment, clock and number of processors; nearly equal calls are run in every order of two; every result is compared byte for byte; distinct by operations and arguments",
		Workloads: []mon.Workload{
			{Name: "histories", Quick: 360, Thorough: 6000, CPUSeconds: 240, Run: c31Histories},
			{Name: "twins", Quick: 8 * len(twinFamilies), Thorough: 240 * len(twinFamilies), CPUSeconds: 240, Run: c31Twins},
			{Name: "processes", Quick: 64, Thorough: 600, CPUSeconds: 240, Run: c31Processes},
		},
		Need: map[string]int64{"results compared": 10000, "processes": 100, "noise calls": 10000, "twins compared": 30000},
	})
}

// script is a list of operations, each with its own arguments' seed.
func script(seed uint64, wl string, idx int) (c *mon.Case, l []step) {
	c = mon.Standalone(seed, "C31", wl, idx)
	for i := 0; i < 12; i++ {
		op := allOps[c.IntN(len(allOps))]
		if i == 0 {
			op = allOps[idx%len(allOps)]
		}
		l = append(l, step{op: op, seed: c.Uint64()})
	}
	return c, l
}

// exact runs one step with a random source of its own and gives everything
// that came back.
func exact(fx *Fx, s step) string {
	var seed [32]byte
	for i := range seed {
		seed[i] = byte(s.seed >> (8 * (i % 8)))
	}
	old := rand.Reader
	rand.Reader = mrand.NewChaCha8(seed)
	defer func() { rand.Reader = old }()
	var res []any
	d, p := "", any(nil)
	p, bad := mon.Panics(func() { d, res = s.op.run(fx, mrand.New(mrand.NewPCG(s.seed, 1))) })
	if bad {
		return fmt.Sprint("panic: ", p)
	}
	if s.op.name == "sm4.NewCipher" {
		res = res[:1] // the cipher itself may be laid out as it likes
	}
	return d + " " + fmt.Sprintf("%x", ref.SM3([]byte(dump(visible(res)))))
}

// visible copies results without their spare capacity.
func visible(l []any) (out []any) {
	for _, v := range l {
		if b, ok := v.([]byte); ok && b != nil {
			v = append(make([]byte, 0, len(b)), b...)
			v = v.([]byte)[:len(b):len(b)]
		}
		out = append(out, noAddresses(fmt.Sprint(v)))
	}
	return out
}

// noise makes calls that have nothing to do with the script, or nearly the
// same arguments, or arguments that are refused.
func noise(c *mon.Case, fx, near *Fx) {
	for i := 6 + c.IntN(20); i > 0; i-- {
		switch c.IntN(6) {
		case 0, 1:
			op := allOps[c.IntN(len(allOps))]
			op.run(near, mrand.New(mrand.NewPCG(c.Uint64(), 1)))
		case 2: // the same values with something broken
			b := clone([][]byte{fx.CertDER, fx.ReqDER, fx.Sig, fx.CT[0], fx.CTDER[0], fx.Raw[1], fx.DER}[c.IntN(7)])
			b[c.IntN(len(b))] ^= 1 << c.IntN(8)
			mon.Panics(func() {
				cert.ParseCertificate(b)
				cert.ParseCertificateRequest(b)
				cert.VerifyDERCSRSign(b, fx.ID[0])
				sm2.Verify(fx.pub(0), fx.ID[0], fx.Msg, b)
				sm2.Decrypt(fx.priv(0), b, sm2.C1C3C2)
				sm2.UnmarshalCipher(b, sm2.C1C3C2)
				sm2.RawBytesToPublicKey(b)
			})
		case 3: // refused
			mon.Panics(func() {
				sm2.GenerateKey(bytes.NewReader(fx.IV[:c.IntN(16)]))
				sm4.NewCipher(fx.Key[:c.IntN(16)])
				sm4.CBCDecrypt(fx.Key, fx.IV[:c.IntN(16)], fx.Blocks)
				util.PKCS5UnPadding(fx.IV)
				old := rand.Reader
				rand.Reader = bytes.NewReader(fx.IV)
				defer func() { rand.Reader = old }()
				sm2.Sign(fx.priv(0), fx.ID[0], fx.Msg)
				sm2.Encrypt(fx.pub(0), fx.Msg, sm2.C1C3C2)
			})
		case 4: // other keys that share a coordinate or a half
			d := cp(fx.D[0])
			d.SetBit(d, c.IntN(250), d.Bit(7)^1)
			d.Mod(d, sub(bigN, 2))
			d.Add(d, bigOne)
			k := gmPriv(d)
			sm2.CalculatePubKey(k)
			s, _ := sm2.Sign(k, fx.ID[0], fx.Msg)
			sm2.Verify(fx.pub(0), fx.ID[0], fx.Msg, s)
		case 5: // a builder and a reader that are left in the middle
			mon.Panics(func() {
				b := cryptobyte.NewBuilder(nil)
				b.AddUint8LengthPrefixed(func(b *cryptobyte.Builder) { panic("stop") })
			})
			s := cryptobyte.String(fx.CertDER)
			for _, o := range readOpsOf[:c.IntN(len(readOpsOf))] {
				o.run(&s)
			}
		}
		c.Ev("noise calls")
	}
}

func (s step) String() string { return s.op.name }

func c31Histories(c *mon.Case) {
	sc, steps := script(c.Seed, "script", c.Idx)
	fx := newFx(sc.Sub("fx"), c.Idx%2 == 0)
	c.Note("operations", fmt.Sprint(steps))
	want := make([]string, len(steps))
	for i, s := range steps {
		want[i] = exact(fx, s)
		if strings.HasPrefix(want[i], "panic") {
			c.Fail("panic/"+s.op.name, "%s: %s", s.op.name, want[i])
		}
	}
	check := func(how string, fx *Fx, order []int) {
		for _, i := range order {
			s := steps[i]
			if got := exact(fx, s); got != want[i] {
				c.Fail("history/"+s.op.name, "%s %s gives %s instead of %s", s.op.name, how, got, want[i])
			}
			c.Ev("results compared")
		}
	}
	back := make([]int, len(steps))
	for i := range back {
		back[i] = len(steps) - 1 - i
	}
	check("a second time", fx, c.Perm(len(steps)))
	// the same values in other memory, in the other order
	sc, _ = script(c.Seed, "script", c.Idx)
	fx2 := newFx(sc.Sub("fx"), c.Idx%4 < 2)
	check("in another order on equal objects", fx2, back)
	// other calls in between: with other objects and ones that are nearly equal
	sc, _ = script(c.Seed, "script", c.Idx)
	near := newFx(sc.Sub("fx"), true)
	near.Msg = append(clone(near.Msg), 1)
	near.Key[15] ^= 1
	near.ID[0] = near.ID[0][:len(near.ID[0])-1]
	other := newFx(c, true)
	noise(c, fx2, near)
	check("after other calls", fx2, c.Perm(len(steps)))
	noise(c, fx2, other)
	for _, i := range c.Perm(len(steps)) {
		check("between other calls", fx, []int{i})
		if c.IntN(2) == 0 {
			op := steps[i].op
			op.run(near, mrand.New(mrand.NewPCG(steps[i].seed, 1)))
			check("after a similar call", fx2, []int{i})
		}
	}
	c.Distinct(strings.Join(want, "\n"))
	c.Sample("%d operations gave the same in five histories: %v", len(steps), steps)
}

// Echo is a process that prints what the operations of a script give.
func Echo(seed uint64, idx int, file string) {
	if z, err := strconv.Atoi(os.Getenv("VH_ZONE")); err == nil {
		time.Local = time.FixedZone("there", z)
	}
	rand.Reader = freeReader{}
	if y, err := strconv.Atoi(os.Getenv("VH_YEARS")); err == nil {
		time.Sleep(time.Duration(y) * 8766 * time.Hour) // at once: see run.sh
	}
	out, err := os.Create(file)
	if err != nil {
		panic(err)
	}
	sc, steps := script(seed, "script", idx)
	fx := newFx(sc.Sub("fx"), idx%2 == 0)
	for i, s := range steps {
		fmt.Fprintf(out, "STEP %d %q\n", i, exact(fx, s))
	}
	fmt.Fprintln(out, "ECHO-DONE", time.Now().Year())
}

func c31Processes(c *mon.Case) {
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	dir, err := os.MkdirTemp("", "vh-echo-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	var first []byte
	for i, env := range [][]string{
		{"PATH=" + os.Getenv("PATH"), "GOMAXPROCS=1"},
		{"VH_ZONE=" + fmt.Sprint(c.IntN(86400)-43200), "LANG=zh_CN.GBK", "LC_ALL=tr_TR", fmt.Sprint("GOMAXPROCS=", 2+c.IntN(6)), "HOME=" + dir, "TMPDIR=/nowhere", "USER=nobody", "GOGC=off", "DEBUG=1", "SM2_DEBUG=1"},
		{"VH_ZONE=28800", "TZ=Asia/Shanghai", "LANG=C", "GOMAXPROCS=8", "GOGC=5", "HTTP_PROXY=http://127.0.0.1:9", "GODEBUG=cpu.all=off"},
		{"GOGC=off", "GOMAXPROCS=1", "VH_YEARS=0"},
		{"GOGC=off", "GOMAXPROCS=1", "VH_YEARS=" + fmt.Sprint(1+c.IntN(250))},
	} {
		self := self
		if i >= 3 {
			if self = os.Getenv("VH_CLOCK"); self == "" {
				break
			}
		}
		limit := 300 * time.Second
		if i >= 3 {
			limit = 30 * time.Second
		}
		ctx, cancel := context.WithTimeout(context.Background(), limit)
		cmd := exec.CommandContext(ctx, self, "echo", fmt.Sprint(c.Seed), fmt.Sprint(c.Idx), filepath.Join(dir, "out"))
		cmd.Env = env
		cmd.Dir = []string{"", dir, "/", "", ""}[i]
		var said bytes.Buffer
		cmd.Stdout, cmd.Stderr = &said, &said
		err := cmd.Run()
		late := ctx.Err() != nil
		cancel()
		if i >= 3 && late { // the runtime may wait for the clock in a loop
			c.Ev("processes with another clock that hung")
			break
		}
		out, _ := os.ReadFile(filepath.Join(dir, "out"))
		out, year, done := bytes.Cut(out, []byte("ECHO-DONE"))
		if err != nil || !done {
			c.Note("output", said.String())
			c.Fail("crash", "a process with the environment %q died: %v", env, err)
		}
		if i == 0 {
			first = out
		} else if !bytes.Equal(out, first) {
			what := "environment"
			if i >= 3 {
				what = "clock"
			}
			c.Fail(what, "the results depend on the %s (%q, year%s): %s", what, env, bytes.TrimSpace(year), firstDiff(string(first), string(out)))
		}
		if i >= 3 {
			c.Ev("processes with another clock")
			c.Distinct("year" + string(year))
		}
		c.Ev("processes")
		c.EvN("results compared", 12)
	}
	c.Distinct(string(first))
}
