package props

import (
	"crypto/elliptic"
	"crypto/x509"
	"crypto/x509/pkix"
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"sync"
	"time"

	"github.com/ZZMarquis/gm/sm2"
	"github.com/ZZMarquis/gm/sm2/cert"

	"vharness/mon"
	"vharness/ref"
)

func init() {
	register(&mon.Prop{
		ID:   "C11",
		Rule: "a history monitor recovers the nonce of every signature and the ephemeral point of every ciphertext in long mixed (and concurrent) histories and checks uniqueness, bit balance and the distribution over the whole range on toy groups; influence cases flip every source bit; fault cases fail the source at every byte position; distinct by nonce or fault position",
		Workloads: []mon.Workload{
			{Name: "history", Quick: 60, Thorough: 1500, Run: c11History},
			{Name: "concurrent-history", Quick: 8, Thorough: 100, Run: c11Concurrent, CPUSeconds: 200},
			{Name: "statistics", Quick: 8, Thorough: 60, Run: c11Stats, CPUSeconds: 300},
			{Name: "toy-sign-range", Quick: 14, Thorough: 100, Run: c11ToySign, CPUSeconds: 200},
			{Name: "toy-encrypt-range", Quick: 14, Thorough: 100, Run: c11ToyEncrypt, CPUSeconds: 200},
			{Name: "influence", Quick: 96, Thorough: 1000, Run: c11Influence},
			{Name: "faults", Quick: 1400, Thorough: 10000, Run: c11Faults},
		},
		Need: map[string]int64{"nonces": 8000, "toy-nonces|toy-unsupported": 14, "influence": 5000, "source-failed": 800},
	})
}

// nonceOps are the operations that draw a nonce; each returns the abscissa
// of the nonce's point modulo n (which identifies the nonce up to sign), the
// nonce if it can be recovered, the error, and whether any output came back.
type nonceOp struct {
	name string
	run  func(c *mon.Case, d *big.Int, id, m []byte) (x, k *big.Int, err error, output bool)
}

func sigWitness(c *mon.Case, d *big.Int, id, m []byte, r, s *big.Int) (x, k *big.Int) {
	pub := ref.SM2.MulG(d)
	e := ref.SM2.E(pub, id, m)
	x = new(big.Int).Sub(r, e)
	x.Mod(x, bigN)
	return x, ref.SM2.Nonce(d, r, s)
}

var nonceOps = []nonceOp{
	{"SignToRS", func(c *mon.Case, d *big.Int, id, m []byte) (*big.Int, *big.Int, error, bool) {
		r, s, err := sm2.SignToRS(gmPriv(d), id, m)
		if err != nil {
			return nil, nil, err, r != nil || s != nil
		}
		x, k := sigWitness(c, d, id, m, r, s)
		return x, k, nil, true
	}},
	{"Sign", func(c *mon.Case, d *big.Int, id, m []byte) (*big.Int, *big.Int, error, bool) {
		sig, err := sm2.Sign(gmPriv(d), id, m)
		if err != nil {
			return nil, nil, err, sig != nil
		}
		r, s, perr := ref.ParseSig(sig)
		if perr != nil {
			c.Fail("der", "malformed signature")
		}
		x, k := sigWitness(c, d, id, m, r, s)
		return x, k, nil, true
	}},
	{"Encrypt-C1C3C2", func(c *mon.Case, d *big.Int, id, m []byte) (*big.Int, *big.Int, error, bool) {
		return encWitness(c, d, m, sm2.C1C3C2)
	}},
	{"Encrypt-C1C2C3", func(c *mon.Case, d *big.Int, id, m []byte) (*big.Int, *big.Int, error, bool) {
		return encWitness(c, d, m, sm2.C1C2C3)
	}},
	{"CreateCertificateRequest", func(c *mon.Case, d *big.Int, id, m []byte) (*big.Int, *big.Int, error, bool) {
		t := &x509.CertificateRequest{Subject: pkix.Name{CommonName: "nonce"}}
		csr, err := cert.CreateCertificateRequest(t, gmPub(ref.SM2.MulG(d)), gmPriv(d), id)
		if err != nil {
			return nil, nil, err, csr != nil
		}
		x, k := derWitness(c, d, id, csr)
		return x, k, nil, true
	}},
	{"IssueCertificateBySoftCAKey", func(c *mon.Case, d *big.Int, id, m []byte) (*big.Int, *big.Int, error, bool) {
		der, err := cert.IssueCertificateBySoftCAKey(nonceTBS(c), gmPriv(d), id)
		if err != nil {
			return nil, nil, err, der != nil
		}
		x, k := derWitness(c, d, id, der)
		return x, k, nil, true
	}},
}

func encWitness(c *mon.Case, d *big.Int, m []byte, t sm2.Sm2CipherTextType) (*big.Int, *big.Int, error, bool) {
	if len(m) == 0 {
		m = []byte{1}
	}
	ct, err := sm2.Encrypt(gmPub(ref.SM2.MulG(d)), m, t)
	if err != nil {
		return nil, nil, err, ct != nil
	}
	if len(ct) < 65 {
		c.Fail("ciphertext", "malformed ciphertext")
	}
	x := new(big.Int).SetBytes(ct[1:33])
	return x.Mod(x, bigN), nil, nil, true
}

// derWitness takes the signature off a certificate or request.
func derWitness(c *mon.Case, d *big.Int, id, der []byte) (x, k *big.Int) {
	tbs, sig, err := splitSigned(der)
	if err != nil {
		c.Fail("der", "malformed output: %v", err)
	}
	r, s, err := ref.ParseSig(sig)
	if err != nil {
		c.Fail("der", "malformed signature: %v", err)
	}
	return sigWitness(c, d, id, tbs, r, s)
}

// splitSigned cuts SEQUENCE { tbs, alg, BIT STRING } into tbs and signature.
func splitSigned(der []byte) (tbs, sig []byte, err error) {
	tag, in, rest, err := ref.ReadTLV(der)
	if err != nil || tag != 0x30 || len(rest) != 0 {
		return nil, nil, fmt.Errorf("outer sequence")
	}
	_, _, after, err := ref.ReadTLV(in)
	if err != nil {
		return nil, nil, err
	}
	tbs = in[:len(in)-len(after)]
	_, _, after, err = ref.ReadTLV(after)
	if err != nil {
		return nil, nil, err
	}
	tag, b, after, err := ref.ReadTLV(after)
	if err != nil || tag != 3 || len(after) != 0 || len(b) < 1 || b[0] != 0 {
		return nil, nil, fmt.Errorf("signature")
	}
	return tbs, b[1:], nil
}

var (
	nonceOnce sync.Once
	nonceInfo []byte // a request made once
)

func nonceTBS(c *mon.Case) *cert.TBSCertificate {
	pub := ref.SM2.MulG(num(12345))
	spki := spkiOf(pub)
	t := &x509.Certificate{SerialNumber: num(7), Subject: pkix.Name{CommonName: "s"}, NotBefore: time.Unix(1600000000, 0), NotAfter: time.Unix(1700000000, 0)}
	p := &x509.Certificate{Subject: pkix.Name{CommonName: "ca"}}
	tbs, err := cert.CreateCertificateInfo(t, p, &x509.CertificateRequest{RawSubjectPublicKeyInfo: spki})
	if err != nil {
		c.Fail("tbs", "CreateCertificateInfo: %v", err)
	}
	return tbs
}

// spkiOf is the SubjectPublicKeyInfo of an SM2 key.
func spkiOf(p ref.Pt) []byte {
	alg := ref.TLV(0x30, []byte{6, 7, 0x2a, 0x86, 0x48, 0xce, 0x3d, 2, 1}, []byte{6, 8, 0x2a, 0x81, 0x1c, 0xcf, 0x55, 1, 0x82, 0x2d})
	return ref.TLV(0x30, alg, ref.TLV(3, []byte{0, 4}, ref.B32(p.X), ref.B32(p.Y)))
}

// history collects nonces.
type history struct {
	mu   sync.Mutex
	seen map[string]string
	dup  string
	n    int
}

func (h *history) add(x *big.Int, who string) {
	h.mu.Lock()
	defer h.mu.Unlock()
	k := x.Text(16)
	if w, ok := h.seen[k]; ok && h.dup == "" {
		h.dup = fmt.Sprintf("%s and %s used the same nonce (abscissa %s)", w, who, k)
	}
	h.seen[k] = who
	h.n++
}

func c11Check(c *mon.Case, op string, served int, x, k *big.Int, err error) {
	if err != nil {
		c.Fail("error", "%s failed on a working source: %v", op, err)
	}
	if served < 32 {
		c.Fail("entropy", "%s drew only %d random bytes", op, served)
	}
	if k != nil {
		if k.Sign() == 0 {
			c.Fail("range", "%s used the nonce 0", op)
		}
		p := ref.SM2.MulG(k)
		if new(big.Int).Mod(p.X, bigN).Cmp(x) != 0 {
			c.Fail("invalid", "%s produced an invalid signature", op)
		}
	}
}

func c11History(c *mon.Case) {
	h := &history{seen: map[string]string{}}
	keys := []*big.Int{keyOf(c, "rand"), keyOf(c, "rand"), keyOf(c, "short")}
	msgs := [][]byte{c.Bytes(20), c.Bytes(20), {0}, c.Bytes(100)}
	ids := [][]byte{nil, {}, []byte("alice")}
	for i := 0; i < 64; i++ {
		if c.IntN(12) == 0 {
			_, pub, err := sm2.GenerateKey(c.RNG())
			if err != nil {
				c.Fail("error", "key generation failed: %v", err)
			}
			h.add(new(big.Int).Mod(pub.X, bigN), fmt.Sprintf("op %d GenerateKey", i))
			continue
		}
		op := nonceOps[c.IntN(len(nonceOps))]
		served := c.RNG().Served
		x, k, err, _ := op.run(c, keys[c.IntN(len(keys))], ids[c.IntN(len(ids))], msgs[c.IntN(len(msgs))])
		c11Check(c, op.name, c.RNG().Served-served, x, k, err)
		h.add(x, fmt.Sprintf("op %d %s", i, op.name))
		c.Ev("nonces")
		c.Ev("op-" + op.name)
		c.Distinct(x)
	}
	if h.dup != "" {
		c.Fail("reuse", "%s", h.dup)
	}
	c.Sample("64 mixed operations, %d distinct nonces", len(h.seen))
}

// c11Concurrent runs the same from many goroutines.
func c11Concurrent(c *mon.Case) {
	h := &history{seen: map[string]string{}}
	d := keyOf(c, "rand")
	m := c.Bytes(20)
	var wg sync.WaitGroup
	errs := make(chan string, 64)
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					errs <- fmt.Sprintf("panic: %v", r)
				}
			}()
			for i := 0; i < 16; i++ {
				op := nonceOps[(g+i)%4]
				x, k, err, _ := op.run(c, d, nil, m)
				if err != nil {
					errs <- err.Error()
					return
				}
				if k != nil && new(big.Int).Mod(ref.SM2.MulG(k).X, bigN).Cmp(x) != 0 {
					errs <- op.name + " produced an invalid signature"
					return
				}
				h.add(x, fmt.Sprintf("goroutine %d op %d %s", g, i, op.name))
				c.Ev("nonces")
			}
		}(g)
	}
	wg.Wait()
	select {
	case e := <-errs:
		c.Fail("concurrent", "%s", e)
	default:
	}
	if h.dup != "" {
		c.Fail("reuse", "%s", h.dup)
	}
	if c.RNG().Served < 32*h.n {
		c.Fail("entropy", "%d operations drew only %d random bytes", h.n, c.RNG().Served)
	}
	c.Distinct(h.n, m)
}

// c11Stats looks for bias in a long run of recovered nonces.
func c11Stats(c *mon.Case) {
	n := 900
	if c.Thorough() {
		n = 5000
	}
	d, kind := anyKey(c)
	m := c.Bytes(16)
	var ones [256]int
	var top, low [256]int
	var mods [4][13]int
	primes := []int64{3, 5, 7, 11}
	var prev *big.Int
	h := &history{seen: map[string]string{}}
	for i := 0; i < n; i++ {
		if c.Idx%2 == 1 {
			m[0]++ // half of the runs sign the same message over and over
		}
		r, s, err := sm2.SignToRS(gmPriv(d), nil, m)
		if err != nil {
			c.Fail("error", "signing failed: %v", err)
		}
		_, k := sigWitness(c, d, nil, m, r, s)
		for b := 0; b < 256; b++ {
			ones[b] += int(k.Bit(b))
		}
		b32 := ref.B32(k)
		top[b32[0]]++
		low[b32[31]]++
		for j, p := range primes {
			mods[j][new(big.Int).Mod(k, num(p)).Int64()]++
		}
		if prev != nil {
			x := new(big.Int).Xor(k, prev)
			w := 0
			for _, v := range x.Bits() {
				w += bits.OnesCount(uint(v))
			}
			if w < 60 || w > 196 {
				c.Fail("correlated", "consecutive nonces differ in only %d (or all but %d) bits", w, 256-w)
			}
			df := new(big.Int).Sub(k, prev)
			df.Mod(df, bigN)
			if df.BitLen() < 180 || new(big.Int).Sub(bigN, df).BitLen() < 180 {
				c.Fail("correlated", "consecutive nonces differ by a small number")
			}
			// multiples and inverses of each other, or of the key
			for _, y := range []*big.Int{new(big.Int).Lsh(prev, 1), new(big.Int).Mul(prev, prev), new(big.Int).ModInverse(prev, bigN)} {
				if y.Mod(y, bigN).Cmp(k) == 0 {
					c.Fail("correlated", "a nonce is a function of the one before")
				}
			}
		}
		prev = k
		h.add(k, fmt.Sprint(i))
		c.Distinct(k)
	}
	if h.dup != "" {
		c.Fail("reuse", "%s", h.dup)
	}
	sig := 6.5 * math.Sqrt(float64(n)) / 2
	for b, o := range ones {
		// the top 32 bits of n are ff..fe: expectation a half to within 2^-31
		if math.Abs(float64(o)-float64(n)/2) > sig {
			c.Fail("biased-bit", "bit %d of the nonce is set in %d of %d signatures (key kind %s)", b, o, n, kind)
		}
	}
	chi := func(name string, cnt []int) {
		e := float64(n) / float64(len(cnt))
		x := 0.0
		for _, v := range cnt {
			x += (float64(v) - e) * (float64(v) - e) / e
		}
		df := float64(len(cnt) - 1)
		if x > df+8*math.Sqrt(2*df)+16 {
			c.Fail("biased", "the %s of the nonce is not uniform: chi-square %.0f for %d values", name, x, len(cnt))
		}
	}
	chi("top byte", top[:])
	chi("low byte", low[:])
	for j, p := range primes {
		chi(fmt.Sprintf("residue modulo %d", p), mods[j][:p])
	}
	c.EvN("nonces", int64(n))
	c.Sample("%d nonces of one key (%s)", n, kind)
}

// chiToy compares the counts over the accepted nonces with uniform.
func chiToy(c *mon.Case, key string, n int64, cnt []int, ok func(k int64) bool, total int) {
	acc := 0
	for k := int64(1); k < n; k++ {
		if ok(k) {
			acc++
		}
	}
	e := float64(total) / float64(acc)
	x := 0.0
	worst, wk := 0.0, int64(0)
	for k := int64(0); k < n; k++ {
		if k == 0 || !ok(k) {
			if cnt[k] > 0 {
				c.Fail(key+"/forbidden", "the nonce %d was used, which the standard forbids here", k)
			}
			continue
		}
		z := (float64(cnt[k]) - e) * (float64(cnt[k]) - e) / e
		x += z
		if z > worst {
			worst, wk = z, k
		}
	}
	df := float64(acc - 1)
	if x > df+8*math.Sqrt(2*df)+16 {
		c.Fail(key+"/not-uniform", "the nonce is not uniform on [1, n-1] for n=%d: chi-square %.0f over %d values; nonce %d was used %d times, expected %.0f", n, x, acc, wk, cnt[wk], e)
	}
}

func c11ToySign(c *mon.Case) {
	t := anyToy(c)
	cv := toyGM(t)
	if !toyHonoured(c, t, cv) {
		return
	}
	n := t.N.Int64()
	d := num(1 + int64(c.IntN(int(n-2))))
	pub := t.Mul(t.G, d)
	m := c.Bytes(8)
	e := t.E(pub, nil, m)
	cnt := make([]int, n)
	total := 200 * int(n)
	c.RNG().Budget = 0
	priv := &sm2.PrivateKey{D: cp(d), Curve: cv}
	for i := 0; i < total; i++ {
		r, s, err := sm2.SignToRS(priv, nil, m)
		if err != nil {
			c.Fail("error", "signing failed: %v", err)
		}
		cnt[t.Nonce(d, r, s).Int64()]++
	}
	chiToy(c, "toy-sign", n, cnt, func(k int64) bool { _, _, ok := t.SignK(d, e, num(k)); return ok }, total)
	c.EvN("toy-nonces", int64(total))
	c.Distinct(t.P, t.B, d, m)
	c.Sample("%d nonces on a group of order %d", total, n)
}

func c11ToyEncrypt(c *mon.Case) {
	t := anyToy(c)
	cv := sm2.P256V1Curve{
		CurveParams: &elliptic.CurveParams{Name: "toy", P: cp(t.P), N: cp(t.N), B: cp(t.B), Gx: cp(t.G.X), Gy: cp(t.G.Y), BitSize: 256},
		A:           cp(t.A),
	}
	n := t.N.Int64()
	d := num(2 + int64(c.IntN(int(n-3))))
	pub := t.Mul(t.G, d)
	dlog := map[string]int64{}
	q := t.G
	for k := int64(1); k < n; k++ {
		dlog[q.X.String()+","+q.Y.String()] = k
		q = t.Add(q, t.G)
	}
	m := c.Bytes(16)
	gp := &sm2.PublicKey{X: cp(pub.X), Y: cp(pub.Y), Curve: cv}
	cnt := make([]int, n)
	total := 200 * int(n)
	c.RNG().Budget = 0
	for i := 0; i < total; i++ {
		var ct []byte
		var err error
		_, p := mon.Panics(func() { ct, err = sm2.Encrypt(gp, m, sm2.C1C3C2) })
		if p || err != nil || len(ct) < 65 {
			if i == 0 {
				c.Ev("toy-unsupported")
				return
			}
			c.Fail("toy-encrypt/error", "encryption on a toy curve failed: %v", err)
		}
		x, y := new(big.Int).SetBytes(ct[1:33]), new(big.Int).SetBytes(ct[33:65])
		k, ok := dlog[x.String()+","+y.String()]
		if !ok {
			if i == 0 {
				c.Ev("toy-unsupported")
				return
			}
			c.Fail("toy-encrypt/c1", "C1 = (%v, %v) is not a point of the group", x, y)
		}
		cnt[k]++
	}
	chiToy(c, "toy-encrypt", n, cnt, func(k int64) bool { return k > 0 }, total)
	c.EvN("toy-nonces", int64(total))
	c.Distinct(t.P, t.B, d, m)
}

// c11Influence flips every bit the operation consumed, one at a time.
func c11Influence(c *mon.Case) {
	op := nonceOps[c.Idx%len(nonceOps)]
	d := keyOf(c, "rand")
	m := c.Bytes(16)
	r := c.Stream("a")
	r.Record = true
	c.UseRNG(r)
	x, k, err, _ := op.run(c, d, nil, m)
	c11Check(c, op.name, r.Served, x, k, err)
	log := clone(r.Log)
	n := min(len(log), 64)
	for i := 0; i < n; i++ {
		for j := 0; j < 2; j++ {
			r2 := c.Stream("b")
			r2.Script = clone(log)
			// over the cases of one operation every bit gets its turn
			r2.Script[i] ^= 1 << uint((c.Idx/len(nonceOps)*2+j)%8)
			c.UseRNG(r2)
			x2, k2, err, _ := op.run(c, d, nil, m)
			c11Check(c, op.name, r2.Served, x2, k2, err)
			if x2.Cmp(x) == 0 {
				c.Fail("ignored-bit", "%s: changing bit %d of random byte %d of %d does not change the nonce", op.name, (c.Idx/len(nonceOps)*2+j)%8, i, n)
			}
			c.Ev("influence")
		}
	}
	c.Distinct(op.name, log)
	c.Sample("%s: %d consumed bytes all influence the nonce", op.name, n)
}

// c11Faults fails the source after every possible number of bytes.
func c11Faults(c *mon.Case) {
	nop := len(nonceOps) + 1
	op := c.Idx % nop
	pos := c.Idx / nop
	d := keyOf(c, "rand")
	m := c.Bytes(1 + c.IntN(20))
	r := c.Stream("a")
	if pos >= 50 { // a nonce the operation must skip first, then the failure
		r.Script = make([]byte, 32)
		if op == 2 || op == 3 {
			m = m[:1]
			r.Script = zeroStreamScalar(c, d)
		}
		pos -= 50
		r.FailAt = 32 + pos%40
	} else {
		r.FailAt = pos
		if pos == 0 {
			r.FailAt = -1
		}
	}
	if c.IntN(3) == 0 {
		r.MaxRead = 1 + c.IntN(20)
	}
	r.Once = c.IntN(3) == 0
	c.UseRNG(r)
	c.Note("failAt", r.FailAt)
	c.Note("once", r.Once)
	c.Note("script", r.Script)
	var err error
	var out bool
	name := "GenerateKey"
	c.NoPanic("operation with a failing source", func() {
		if op == len(nonceOps) {
			var priv *sm2.PrivateKey
			var pub *sm2.PublicKey
			priv, pub, err = sm2.GenerateKey(r)
			out = priv != nil || pub != nil
		} else {
			name = nonceOps[op].name
			var x, k *big.Int
			x, k, err, out = nonceOps[op].run(c, d, nil, m)
			if err == nil && k != nil && new(big.Int).Mod(ref.SM2.MulG(k).X, bigN).Cmp(x) != 0 {
				c.Fail("invalid", "%s produced an invalid signature", name)
			}
		}
	})
	if r.Failed > 0 {
		if err == nil {
			c.Fail("masked", "%s succeeded although the randomness source failed after %d bytes", name, r.Served)
		}
		if out {
			c.Fail("output-with-error", "%s returned output together with the source's error", name)
		}
		c.Ev("source-failed")
	} else {
		if err != nil {
			c.Fail("error", "%s failed on a working source: %v", name, err)
		}
		c.Check(r.Served >= 32, "entropy", "%s drew only %d random bytes", name, r.Served)
	}
	c.Ev("op-" + name)
	c.Distinct(name, r.FailAt, r.MaxRead, r.Once, len(r.Script))
	c.Sample("%s failAt=%d once=%v err=%v", name, r.FailAt, r.Once, err)
}

// zeroStreamScalar finds k whose one-byte key stream under the key is zero.
func zeroStreamScalar(c *mon.Case, d *big.Int) []byte {
	pub := ref.SM2.MulG(d)
	k := scalar(c)
	p2 := ref.SM2.Mul(pub, k)
	for i := 0; i < 5000; i++ {
		if ref.KDF(1, ref.B32(p2.X), ref.B32(p2.Y))[0] == 0 {
			return ref.B32(k)
		}
		k = add(k, 1)
		p2 = ref.SM2.Add(p2, pub)
		if p2.Inf || k.Cmp(bigN) >= 0 {
			break
		}
	}
	return make([]byte, 32)
}
