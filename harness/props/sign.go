package props

import (
	"bytes"
	"crypto/elliptic"
	"encoding/hex"
	"math/big"
	"strings"

	"github.com/ZZMarquis/gm/sm2"

	"vharness/mon"
	"vharness/ref"
)

func init() {
	register(&mon.Prop{
		ID:   "C09",
		Rule: "cases sign with keys of every edge kind, ids of 0..8191 bytes (nil and default included), messages of many lengths and scripted first nonces, and on toy curves where every retry condition occurs often; each signature is judged by an independent verifier; distinct by key, id, message and signature",
		Workloads: []mon.Workload{
			{Name: "sign", Quick: 6000, Thorough: 48000, Run: c09Sign},
			{Name: "scripted-nonce", Quick: 1500, Thorough: 12000, Run: c09Script},
			{Name: "toy", Quick: 1250, Thorough: 10000, Run: c09Toy},
			{Name: "toy-scripted", Quick: 300, Thorough: 2400, Run: c09ToyScript},
			{Name: "reused", Quick: 150, Thorough: 1500, Run: c09Reused},
			{Name: "refused", Quick: 60, Thorough: 400, Run: c09Refused},
			{Name: "large", Quick: 12, Thorough: 48, CPUSeconds: 200, Run: c09Large},
		},
		Need: map[string]int64{"signatures": 1500, "toy-signatures|toy-unsupported": 50, "toy-retries|toy-unsupported": 50, "refused": 50, "reused-key-object": 100},
	})
	register(&mon.Prop{
		ID:   "C10",
		Rule: "cases verify genuine signatures made by an independent signer and systematic corruptions of each component (values, DER, id, message, key), signatures crafted to hit infinity and doubling, and every (r, s) pair on toy curves, comparing each verdict with an independent verifier; distinct by the full input tuple",
		Workloads: []mon.Workload{
			{Name: "genuine", Quick: 1000, Thorough: 10000, Run: c10Genuine},
			{Name: "values", Quick: 500, Thorough: 5000, Run: c10Values},
			{Name: "content", Quick: 150, Thorough: 3000, Run: c10Content},
			{Name: "der", Quick: 400, Thorough: 4000, Run: c10DER},
			{Name: "reused", Quick: 60, Thorough: 600, Run: c10Reused},
			{Name: "crafted", Quick: 300, Thorough: 3000, Run: c10Crafted},
			{Name: "keys", Quick: 300, Thorough: 2400, Run: c10Keys},
			{Name: "openssl", Quick: len(opensslSignatures), Thorough: len(opensslSignatures), Run: c10OpenSSL},
			{Name: "large", Quick: 12, Thorough: 48, CPUSeconds: 200, Run: c10Large},
			{Name: "toy-exhaustive", Quick: 24, Thorough: 400, Run: c10Toy},
		},
		Need: map[string]int64{"accepted": 800, "rejected": 3000, "toy-pairs|toy-unsupported": 20, "toy-accepted|toy-unsupported": 20, "reused-key-object": 300},
	})
	register(&mon.Prop{
		ID:   "C12",
		Rule: "cases encode integer pairs of all sizes and signs and decode them, and decode mutated and random byte strings, comparing with an independent strict DER codec; distinct by bytes",
		Workloads: []mon.Workload{
			{Name: "roundtrip", Quick: 120000, Thorough: 960000, Run: c12Round},
			{Name: "mutations", Quick: 80000, Thorough: 640000, Run: c12Mutate},
			{Name: "random", Quick: 40000, Thorough: 320000, Run: c12Random},
		},
		Need: map[string]int64{"encoded": 3000, "decode-refused": 5000, "decode-accepted": 3000},
	})
}

func c09Sign(c *mon.Case) {
	d, kind := anyKey(c)
	id := anyID(c)
	m := c.Msg(anyLen(c, 500))
	c09One(c, d, kind, id, m)
}

func c09One(c *mon.Case, d *big.Int, kind string, id, m []byte) {
	c.Note("d", d)
	c.Note("id", id)
	c.Note("message", m)
	pub := ref.SM2.MulG(d)
	priv := slotPriv(c, "sign", d)
	fi, fm := c.FreezeAs("id", id), c.FreezeAs("message", m)
	r, s, err := sm2.SignToRS(priv, fi.B, fm.B)
	if err != nil {
		c.Fail("error", "signing failed: %v", err)
	}
	c.Note("r", r)
	c.Note("s", s)
	if !ref.SM2.Verify(pub, id, m, r, s) {
		c.Fail("invalid", "the signature (%x, %x) is not valid (key kind %s, id %d bytes, message %d bytes)", r, s, kind, len(id), len(m))
	}
	sig, err := sm2.Sign(priv, fi.B, fm.B)
	if err != nil {
		c.Fail("error", "signing failed: %v", err)
	}
	c.Note("signature", sig)
	r2, s2, err := ref.ParseSig(sig)
	if err != nil {
		c.Fail("der", "the signature is not strict DER: %x", sig)
	}
	if !ref.SM2.Verify(pub, id, m, r2, s2) {
		c.Fail("invalid-der", "the encoded signature is not valid (key kind %s, id %d bytes, message %d bytes)", kind, len(id), len(m))
	}
	gp := slotPub(c, "verify", pub)
	if !sm2.Verify(gp, fi.B, fm.B, sig) || !sm2.VerifyByRS(gp, fi.B, fm.B, r, s) {
		c.Fail("self-verify", "the library does not accept its own signature (key kind %s, id %d bytes, message %d bytes)", kind, len(id), len(m))
	}
	if id == nil {
		c.Check(sm2.Verify(gp, ref.DefaultID, fm.B, sig), "nil-id", "a signature with nil id does not verify with the default id")
	}
	if x := fi.Changed() + fm.Changed(); x != "" {
		c.Fail("modified", "signing modified its input: %s", x)
	}
	c.Check(priv.D.Cmp(d) == 0, "key-modified", "signing changed the private key")
	c.EvN("signatures", 2)
	c.Ev("key-" + kind)
	c.Distinct(d, id, m, sig)
	c.Sample("kind=%s id=%d bytes msg=%d bytes sig=%x", kind, len(id), len(m), sig)
}

// longMsg is a message of the i-th size worth trying.
func longMsg(c *mon.Case, i int) []byte {
	n := []int{1 << 12, 8193, 1 << 14, 1 << 15, 1<<16 - 1, 1 << 16, 1<<16 + 1, 1<<17 + 1, 1<<18 + 1, 1<<20 + 1, 1<<22 + 1, 1<<24 + 5}[i%12] + c.IntN(3)
	m := make([]byte, n)
	k := c.IntN(256)
	for j := range m {
		m[j] = byte(j*5>>2 ^ k)
	}
	return m
}

func c09Large(c *mon.Case) {
	d, kind := anyKey(c)
	c09One(c, d, kind, anyID(c), longMsg(c, c.Idx))
	c.Ev("large")
}

// c10Large changes long messages near both ends and at the powers of two.
func c10Large(c *mon.Case) {
	d, _ := anyKey(c)
	id, m := anyID(c), longMsg(c, c.Idx)
	r, s := refSign(c, d, id, m)
	pub := ref.SM2.MulG(d)
	judge(c, "large", pub, id, m, r, s)
	judgeDER(c, "large-der", pub, id, m, ref.SigDER(r, s))
	at := []int{0, len(m) / 2, len(m) - 1, c.IntN(len(m))}
	for p := 1 << 10; p < len(m); p *= 4 {
		at = append(at, p)
	}
	if len(m) > 1<<21 {
		at = at[1:3]
	}
	for _, i := range at {
		x := clone(m)
		x[i] ^= 1 << c.IntN(8)
		judge(c, "large-bit", pub, id, x, r, s)
	}
	judge(c, "large-truncated", pub, id, m[:len(m)-1], r, s)
	judge(c, "large-extended", pub, id, append(clone(m), 0), r, s)
	c.Ev("large")
}

var edgeNonces = []*big.Int{num(0), num(1), num(2), sub(bigN, 1), bigN, add(bigN, 1), sub(new(big.Int).Lsh(bigOne, 256), 1)}

// c09Reused signs several times with the same key structures and argument
// memory, which hold another value each time.
func c09Reused(c *mon.Case) {
	n := c.IntN(60)
	for i := 0; i < 5; i++ {
		d, kind := anyKey(c)
		id := anyID(c)
		if c.IntN(2) == 0 {
			id = c.Bytes(16)
		}
		c09One(c, d, kind, id, c.Bytes(n))
	}
}

func c09Script(c *mon.Case) {
	for i := 0; i < 1+c.IntN(3); i++ {
		k := edgeNonces[c.IntN(len(edgeNonces))]
		if c.IntN(4) == 0 {
			k = lzScalar(c, []string{"x", "y"}[c.IntN(2)])
		}
		c.RNG().Script = append(c.RNG().Script, ref.B32(k)...)
	}
	c.Note("script", c.RNG().Script)
	d, kind := anyKey(c)
	c09One(c, d, kind, anyID(c), c.Msg(anyLen(c, 100)))
}

// toyGM wraps a toy curve for the library.
func toyGM(t *ref.Curve) sm2.P256V1Curve {
	return sm2.P256V1Curve{
		CurveParams: &elliptic.CurveParams{Name: "toy", P: cp(t.P), N: cp(t.N), B: cp(t.B), Gx: cp(t.G.X), Gy: cp(t.G.Y), BitSize: t.P.BitLen()},
		A:           cp(t.A),
	}
}

var toyPrimes = []int64{67, 79, 101, 131, 163, 199, 251}

func anyToy(c *mon.Case) *ref.Curve {
	for {
		t := ref.Toy(toyPrimes[c.IntN(len(toyPrimes))], c.IntN(3))
		if t != nil {
			return t
		}
	}
}

// toyHonoured tells whether signing works in the group of the key's own
// curve. The library takes it from the key; an implementation tied to the
// SM2 curve would be just as right, and then the toy cases say nothing.
func toyHonoured(c *mon.Case, t *ref.Curve, cv sm2.P256V1Curve) bool {
	small := 0
	for i := 0; i < 4; i++ {
		var r, s *big.Int
		var err error
		if _, p := mon.Panics(func() {
			r, s, err = sm2.SignToRS(&sm2.PrivateKey{D: num(int64(3 + i)), Curve: cv}, nil, []byte{byte(i)})
		}); p || err != nil {
			continue
		}
		if r.BitLen() <= t.N.BitLen()+1 || s.BitLen() <= t.N.BitLen()+1 {
			small++
		}
	}
	if small == 0 {
		c.Ev("toy-unsupported")
		return false
	}
	return true
}

// c09Toy: on a group of order n ~ 100 each retry condition of the standard
// occurs about once in n nonces.
func c09Toy(c *mon.Case) {
	t := anyToy(c)
	cv := toyGM(t)
	if !toyHonoured(c, t, cv) {
		return
	}
	n := t.N.Int64()
	for i := 0; i < 40; i++ {
		d := num(1 + int64(c.IntN(int(n-2))))
		toySign(c, t, cv, d, anyToyID(c), c.Bytes(c.IntN(20)))
	}
}

func anyToyID(c *mon.Case) []byte {
	if c.IntN(2) == 0 {
		return nil
	}
	return c.Bytes(c.IntN(10))
}

func toySign(c *mon.Case, t *ref.Curve, cv sm2.P256V1Curve, d *big.Int, id, m []byte) {
	pub := t.Mul(t.G, d)
	c.Note("toy", t)
	c.Note("d", d)
	c.Note("message", m)
	e := t.E(pub, id, m)
	reads := c.RNG().Reads
	r, s, err := sm2.SignToRS(&sm2.PrivateKey{D: cp(d), Curve: cv}, id, m)
	if err != nil {
		c.Fail("toy-error", "signing failed on a toy curve: %v", err)
	}
	c.Note("r", r)
	c.Note("s", s)
	if !t.VerifyE(pub, e, r, s) {
		c.Fail("toy-invalid", "on y^2=x^3-3x+%v mod %v (n=%v) key %v gave the invalid signature (%v, %v)", t.B, t.P, t.N, d, r, s)
	}
	if c.RNG().Reads > reads+1 {
		c.Ev("toy-retries")
	}
	if !sm2.VerifyByRS(&sm2.PublicKey{X: cp(pub.X), Y: cp(pub.Y), Curve: cv}, id, m, r, s) {
		c.Fail("toy-self-verify", "the library rejects its own signature on a toy curve")
	}
	c.Ev("toy-signatures")
	c.Distinct(t.P, t.B, d, id, m, r, s)
}

// c09ToyScript serves exactly the nonces the standard says to skip.
func c09ToyScript(c *mon.Case) {
	t := anyToy(c)
	cv := toyGM(t)
	if !toyHonoured(c, t, cv) {
		return
	}
	n := t.N.Int64()
	for i := 0; i < 6; i++ {
		d := num(1 + int64(c.IntN(int(n-2))))
		id, m := anyToyID(c), c.Bytes(c.IntN(20))
		pub := t.Mul(t.G, d)
		e := t.E(pub, id, m)
		var bad []byte
		for k := int64(1); k < n; k++ {
			if _, _, ok := t.SignK(d, e, num(k)); !ok {
				bad = append(bad, byte(k))
			}
		}
		bad = append(bad, 0)
		c.Note("skipped-nonces", bad)
		for _, k := range bad {
			c.RNG().Script = []byte{k}
			toySign(c, t, cv, d, id, m)
			c.RNG().Script = nil
		}
		c.RNG().Script = clone(bad)
		toySign(c, t, cv, d, id, m)
		c.RNG().Script = nil
	}
}

func c09Refused(c *mon.Case) {
	d := keyOf(c, "rand")
	id := c.Bytes([]int{8192, 8193, 8200, 16384, 16400, 65536, 8192 + c.IntN(9000)}[c.IntN(7)])
	m := c.Bytes(c.IntN(50))
	c.Note("id-length", len(id))
	var r, s *big.Int
	var sig []byte
	var err error
	c.NoPanic("SignToRS", func() { r, s, err = sm2.SignToRS(gmPriv(d), id, m) })
	c.Check(err != nil && r == nil && s == nil, "long-id", "signing accepted a %d-byte id", len(id))
	c.NoPanic("Sign", func() { sig, err = sm2.Sign(gmPriv(d), id, m) })
	c.Check(err != nil && sig == nil, "long-id", "signing accepted a %d-byte id", len(id))
	// a signature over the wrapped length must not verify for the long id
	pub := ref.SM2.MulG(d)
	l := len(id) * 8
	z := ref.SM3([]byte{byte(l >> 8), byte(l)}, id, ref.B32(ref.SM2.A), ref.B32(ref.SM2.B), ref.B32(ref.SM2.G.X), ref.B32(ref.SM2.G.Y), ref.B32(pub.X), ref.B32(pub.Y))
	e := new(big.Int).SetBytes(ref.SM3(z, m))
	r, s, _ = ref.SM2.SignK(d, e, scalar(c))
	c.Check(!sm2.VerifyByRS(gmPub(pub), id, m, r, s), "long-id-verify", "a signature verifies for a %d-byte id", len(id))
	c.Check(!sm2.Verify(gmPub(pub), id, m, ref.SigDER(r, s)), "long-id-verify", "a signature verifies for a %d-byte id", len(id))
	// the degenerate key
	for _, dd := range []*big.Int{sub(bigN, 1), new(big.Int).Sub(new(big.Int).Mul(bigN, num(2)), bigOne)} {
		c.NoPanic("Sign with the key n-1", func() { sig, err = sm2.Sign(gmPriv(dd), nil, m) })
		c.Check(err != nil && sig == nil, "degenerate-key", "the key n-1 produced a signature")
	}
	c.Ev("refused")
	c.Distinct(id)
}

// refSign makes a valid signature independently.
func refSign(c *mon.Case, d *big.Int, id, m []byte) (r, s *big.Int) {
	pub := ref.SM2.MulG(d)
	e := ref.SM2.E(pub, id, m)
	for {
		k := scalar(c)
		if c.IntN(10) == 0 {
			k = num(int64(1 + c.IntN(5)))
		}
		r, s, ok := ref.SM2.SignK(d, e, k)
		if ok {
			return r, s
		}
	}
}

// judge compares one verdict on (r, s).
func judge(c *mon.Case, key string, pub ref.Pt, id, m []byte, r, s *big.Int) bool {
	want := r != nil && s != nil && ref.SM2.Verify(pub, id, m, r, s)
	c.Note("pubX", pub.X)
	c.Note("pubY", pub.Y)
	c.Note("id", id)
	c.Note("message", m)
	c.Note("r", r)
	c.Note("s", s)
	var got bool
	gr, gs := cp(r), cp(s)
	gp, fi, fm := slotPub(c, "verify", pub), c.FreezeAs("id", id), c.FreezeAs("message", m)
	c.NoPanic("VerifyByRS/"+key, func() { got = sm2.VerifyByRS(gp, fi.B, fm.B, gr, gs) })
	if got != want {
		c.Fail(key, "VerifyByRS says %v, the standard says %v (%s)", got, want, key)
	}
	c.Check(gr.Cmp(r) == 0 && gs.Cmp(s) == 0, key+"/modified", "verification changed r or s")
	if want {
		c.Ev("accepted")
	} else {
		c.Ev("rejected")
	}
	c.Distinct(pub, id, m, r, s)
	return want
}

// judgeDER compares one verdict on an encoded signature.
func judgeDER(c *mon.Case, key string, pub ref.Pt, id, m, sig []byte) {
	r, s, err := ref.ParseSig(sig)
	want := err == nil && ref.SM2.Verify(pub, id, m, r, s)
	c.Note("signature", sig)
	c.Note("id", id)
	c.Note("message", m)
	f := c.FreezeAs("sig", sig)
	gp, fi, fm := slotPub(c, "verify", pub), c.FreezeAs("id", id), c.FreezeAs("message", m)
	var got bool
	c.NoPanic("Verify/"+key, func() { got = sm2.Verify(gp, fi.B, fm.B, f.B) })
	if got != want {
		c.Fail(key, "Verify says %v, the standard says %v (%s)", got, want, key)
	}
	if x := f.Changed(); x != "" {
		c.Fail(key+"/modified", "verification modified the signature: %s", x)
	}
	if want {
		c.Ev("accepted")
	} else {
		c.Ev("rejected")
	}
	c.Distinct(pub, id, m, sig)
}

func c10Genuine(c *mon.Case) {
	d, kind := anyKey(c)
	id, m := anyID(c), c.Msg(anyLen(c, 400))
	r, s := refSign(c, d, id, m)
	pub := ref.SM2.MulG(d)
	c.Note("d", d)
	if !judge(c, "genuine", pub, id, m, r, s) {
		panic("oracle signed wrongly")
	}
	judgeDER(c, "genuine-der", pub, id, m, ref.SigDER(r, s))
	c.Sample("kind=%s id=%d bytes msg=%d bytes r=%x s=%x", kind, len(id), len(m), r, s)
}

func c10Values(c *mon.Case) {
	d, _ := anyKey(c)
	id, m := anyID(c), c.Msg(anyLen(c, 60))
	r, s := refSign(c, d, id, m)
	pub := ref.SM2.MulG(d)
	neg := func(x *big.Int) *big.Int { return new(big.Int).Neg(x) }
	plus := func(x, y *big.Int) *big.Int { return new(big.Int).Add(x, y) }
	minus := func(x, y *big.Int) *big.Int { return new(big.Int).Sub(x, y) }
	cand := [][2]*big.Int{
		{plus(r, bigN), s}, {r, plus(s, bigN)}, {plus(r, bigN), plus(s, bigN)},
		{minus(r, bigN), s}, {r, minus(s, bigN)}, {minus(bigN, r), s}, {r, minus(bigN, s)}, {minus(bigN, r), minus(bigN, s)},
		{neg(r), s}, {r, neg(s)}, {neg(r), neg(s)}, {s, r},
		{num(0), s}, {r, num(0)}, {num(0), num(0)}, {bigN, s}, {r, bigN}, {num(1), num(1)}, {num(1), s}, {r, num(1)},
		{sub(bigN, 1), s}, {r, sub(bigN, 1)}, {add(r, 1), s}, {r, add(s, 1)}, {sub(r, 1), s}, {r, sub(s, 1)},
		{r, minus(bigN, r)}, // r + s = n
		{minus(bigN, s), s},
		{add(r, 1), sub(s, 1)}, {sub(r, 1), add(s, 1)},
		{new(big.Int).Lsh(r, 8), s}, {r, new(big.Int).Lsh(s, 8)}, {new(big.Int).SetBytes(c.Bytes(100)), s}, {r, new(big.Int).SetBytes(c.Bytes(100))},
		{below(c, bigN), below(c, bigN)}, {r, below(c, bigN)}, {below(c, bigN), s},
		{new(big.Int).SetBit(cp(r), c.IntN(256), r.Bit(0)^1), s}, {r, new(big.Int).SetBit(cp(s), c.IntN(256), s.Bit(0)^1)},
	}
	judge(c, "values", pub, id, m, r, s)
	// each case takes half of the list, so that the cost stays small
	for i, x := range cand {
		if (i+c.Idx)%2 == 0 {
			judge(c, "values", pub, id, m, x[0], x[1])
			if i%5 == 0 {
				judgeDER(c, "values-der", pub, id, m, ref.SigDER(x[0], x[1]))
			}
		}
	}
}

func c10Content(c *mon.Case) {
	d, _ := anyKey(c)
	id, m := anyID(c), c.Msg(1+anyLen(c, 80))
	if c.IntN(2) == 0 {
		id = edgeID(c)
	}
	r, s := refSign(c, d, id, m)
	pub := ref.SM2.MulG(d)
	judge(c, "content", pub, id, m, r, s)
	for i := 0; i < 6; i++ {
		m2 := clone(m)
		m2[c.IntN(len(m2))] ^= 1 << uint(c.IntN(8))
		judge(c, "message-bit", pub, id, m2, r, s)
	}
	judge(c, "message-trunc", pub, id, m[:len(m)-1], r, s)
	judge(c, "message-ext", pub, id, append(clone(m), 0), r, s)
	judge(c, "message-empty", pub, id, nil, r, s)
	rel := relatedIDs(c, id)
	for i := 0; i < 8; i++ {
		judge(c, "id-related", pub, rel[c.IntN(len(rel))], m, r, s)
	}
	judge(c, "id-nil", pub, nil, m, r, s)
	judge(c, "id-empty", pub, []byte{}, m, r, s)
	judge(c, "id-default", pub, ref.DefaultID, m, r, s)
	judge(c, "id-ext", pub, append(clone(id), 0), m, r, s)
	judge(c, "id-shift", pub, append(clone(id), m[0]), m[1:], r, s)
	if len(id) > 0 {
		i2 := clone(id)
		i2[c.IntN(len(i2))] ^= 1 << uint(c.IntN(8))
		judge(c, "id-bit", pub, i2, m, r, s)
		judge(c, "id-trunc", pub, id[:len(id)-1], m, r, s)
	}
}

// c10Reused verifies several times with the same key structure and argument
// memory, which hold another value each time: another key, a key off the
// curve, another id or message of the same length.
func c10Reused(c *mon.Case) {
	d, _ := anyKey(c)
	pub := ref.SM2.MulG(d)
	id, m := c.Bytes(1+c.IntN(30)), c.Bytes(1+c.IntN(60))
	r, s := refSign(c, d, id, m)
	sig := ref.SigDER(r, s)
	for i := 0; i < 10; i++ {
		p, i2, m2 := pub, id, m
		switch c.IntN(7) {
		case 0:
			p = ref.SM2.MulG(scalar(c))
		case 1:
			p = ref.SM2.Neg(pub)
		case 2:
			p = ref.Pt{X: cp(pub.X), Y: add(pub.Y, 1)}
		case 3:
			i2 = c.Bytes(len(id))
		case 4:
			m2 = c.Bytes(len(m))
		}
		if c.IntN(2) == 0 {
			judge(c, "reused", p, i2, m2, r, s)
		} else {
			judgeDER(c, "reused", p, i2, m2, sig)
		}
	}
}

// relatedIDs are other ids a careless caller or verifier might take for id.
func relatedIDs(c *mon.Case, id []byte) [][]byte {
	out := [][]byte{nil, {}, clone(ref.DefaultID)}
	for _, n := range idLens {
		if n < len(id) {
			out = append(out, clone(id[:n]), clone(id[len(id)-n:]))
		} else if n > len(id) {
			out = append(out, append(clone(id), make([]byte, n-len(id))...), append(clone(id), c.Bytes(n-len(id))...))
		}
	}
	if l := len(id); l > 0 {
		out = append(out, clone(id[:l-1]), clone(id[1:]), bytes.ToUpper(id), bytes.TrimSpace(id), bytes.TrimRight(id, "\x00"), []byte(hex.EncodeToString(id)))
		x := clone(id)
		x[c.IntN(l)] ^= 1 << uint(c.IntN(8))
		y := clone(id)
		y[l-1] ^= 1
		out = append(out, x, y, append(clone(id), id...), append([]byte{0}, id...))
	}
	i := 0
	for _, x := range out {
		if len(x) < 8192 && !bytes.Equal(effID(x), effID(id)) {
			out[i] = x
			i++
		}
	}
	return out[:i]
}

// effID is the id that counts.
func effID(id []byte) []byte {
	if id == nil {
		return ref.DefaultID
	}
	return id
}

// derMutants corrupts an encoding in ways decoders get wrong.
func derMutants(c *mon.Case, sig []byte, r, s *big.Int) [][]byte {
	pad := func(x *big.Int, n int) []byte {
		b := ref.IntBytes(x)
		return ref.TLV(2, make([]byte, n), b)
	}
	longLen := func(tag byte, content []byte) []byte {
		return append(append([]byte{tag, 0x81}, byte(len(content))), content...)
	}
	body := append(ref.DERInt(r), ref.DERInt(s)...)
	out := [][]byte{
		append(clone(sig), 0),
		append(clone(sig), c.Bytes(1+c.IntN(4))...),
		sig[:len(sig)-1],
		sig[:c.IntN(len(sig))],
		ref.TLV(0x30, pad(r, 1), ref.DERInt(s)),
		ref.TLV(0x30, ref.DERInt(r), pad(s, 1)),
		ref.TLV(0x30, pad(r, 2), ref.DERInt(s)),
		append(clone(sig), c.Bytes(60+c.IntN(300))...),
		append(clone(sig), make([]byte, 60+c.IntN(300))...),
		ref.TLV(0x30, body, c.Bytes(60+c.IntN(300))),
		ref.TLV(0x30, body, ref.TLV(4, c.Bytes(60+c.IntN(300)))),
		ref.TLV(0x30, pad(r, 60+c.IntN(300)), ref.DERInt(s)),
		ref.TLV(0x30, ref.DERInt(r), pad(s, 60+c.IntN(300))),
		append(clone(sig), sig...),
		ref.TLV(0x31, body),
		ref.TLV(0x10, body),
		ref.TLV(0x30, body, ref.TLV(2, []byte{0})),
		ref.TLV(0x30, body, ref.TLV(5)),
		ref.TLV(0x30, body, c.Bytes(1+c.IntN(3))),
		ref.TLV(0x30, ref.DERInt(r)),
		ref.TLV(0x30),
		ref.TLV(0x30, ref.DERInt(r), ref.TLV(3, ref.IntBytes(s))),
		ref.TLV(0x30, ref.TLV(0x0a, ref.IntBytes(r)), ref.DERInt(s)),
		ref.TLV(0x30, ref.DERInt(r), ref.TLV(0x22, ref.DERInt(s))),
		ref.TLV(0x30, ref.DERInt(r), ref.TLV(2)),
		longLen(0x30, body),
		append([]byte{0x30, 0x82, 0}, append([]byte{byte(len(body))}, body...)...),
		append(append([]byte{0x30, 0x80}, body...), 0, 0),
		ref.TLV(0x30, longLen(2, ref.IntBytes(r)), ref.DERInt(s)),
		ref.TLV(0x30, ref.TLV(0x30, body)),
		append(ref.B32(new(big.Int).Mod(new(big.Int).Abs(r), bigN)), ref.B32(new(big.Int).Mod(new(big.Int).Abs(s), bigN))...),
		nil,
		{},
		{0x30},
		{0x30, 0xff},
		{0x30, 0x84, 0xff, 0xff, 0xff, 0xff},
	}
	// unsigned (wrong-sign) integer content
	if b := r.Bytes(); len(b) > 0 && b[0]&0x80 != 0 {
		out = append(out, ref.TLV(0x30, ref.TLV(2, b), ref.DERInt(s)))
	}
	for i := 0; i < 6; i++ {
		x := clone(sig)
		x[c.IntN(len(x))] ^= 1 << uint(c.IntN(8))
		out = append(out, x)
	}
	for i := 0; i < 3; i++ {
		x := clone(sig)
		j := c.IntN(len(x))
		out = append(out, append(x[:j:j], x[j+1:]...))
		out = append(out, append(clone(sig[:j]), append([]byte{byte(c.Uint32())}, sig[j:]...)...))
	}
	return out
}

func c10DER(c *mon.Case) {
	d, _ := anyKey(c)
	id, m := anyID(c), c.Msg(anyLen(c, 40))
	r, s := refSign(c, d, id, m)
	pub := ref.SM2.MulG(d)
	sig := ref.SigDER(r, s)
	judgeDER(c, "der", pub, id, m, sig)
	for _, x := range derMutants(c, sig, r, s) {
		judgeDER(c, "der", pub, id, m, x)
	}
	for i := 0; i < 10; i++ {
		judgeDER(c, "der-random", pub, id, m, c.Bytes(c.IntN(100)))
	}
}

// c10Crafted hits the exceptional points of the verification equation.
func c10Crafted(c *mon.Case) {
	d, _ := anyKey(c)
	id, m := anyID(c), c.Msg(anyLen(c, 40))
	pub := ref.SM2.MulG(d)
	e := ref.SM2.E(pub, id, m)
	en := new(big.Int).Mod(e, bigN)
	di := new(big.Int).ModInverse(add(d, 1), bigN)
	c.Note("d", d)
	// s + t d = 0: the sum is infinity; with r = e a careless verifier accepts
	s := new(big.Int).Mul(en, d)
	s.Mul(s, di)
	s.Neg(s)
	s.Mod(s, bigN)
	judge(c, "infinity", pub, id, m, en, s)
	r := add(below(c, sub(bigN, 1)), 1)
	s = new(big.Int).Mul(r, d)
	s.Mul(s, di)
	s.Neg(s).Mod(s, bigN)
	judge(c, "infinity-any", pub, id, m, r, s)
	// sG = tP: the addition is a doubling
	s = scalar(c)
	t := new(big.Int).Mul(s, new(big.Int).ModInverse(d, bigN))
	r = new(big.Int).Sub(t, s)
	r.Mod(r, bigN)
	judge(c, "doubling", pub, id, m, r, s)
	// t = 0
	s = scalar(c)
	judge(c, "t-zero", pub, id, m, new(big.Int).Sub(bigN, s), s)
	// r = x(sG) + e with t ignored, r = e, r = e + x(G)
	p := ref.SM2.MulG(s)
	r = new(big.Int).Add(en, p.X)
	judge(c, "t-ignored", pub, id, m, r.Mod(r, bigN), s)
	judge(c, "r-is-e", pub, id, m, en, s)
	// a signature for e computed without Z, with swapped hash order, and for the raw message
	for _, e2 := range []*big.Int{new(big.Int).SetBytes(ref.SM3(m)), new(big.Int).SetBytes(ref.SM3(m, ref.SM2.Z(pub, id)))} {
		if r, s, ok := ref.SM2.SignK(d, e2, scalar(c)); ok {
			judge(c, "wrong-e", pub, id, m, r, s)
		}
	}
	// an ECDSA-style signature over e
	k := scalar(c)
	q := ref.SM2.MulG(k)
	r = new(big.Int).Mod(q.X, bigN)
	s = new(big.Int).Mul(r, d)
	s.Add(s, e)
	s.Mul(s, new(big.Int).ModInverse(k, bigN))
	judge(c, "ecdsa", pub, id, m, r, s.Mod(s, bigN))
}

func c10Keys(c *mon.Case) {
	d, _ := anyKey(c)
	id, m := anyID(c), c.Msg(anyLen(c, 40))
	r, s := refSign(c, d, id, m)
	pub := ref.SM2.MulG(d)
	judge(c, "key", pub, id, m, r, s)
	judge(c, "key-neg", ref.SM2.Neg(pub), id, m, r, s)
	judge(c, "key-double", ref.SM2.Add(pub, pub), id, m, r, s)
	judge(c, "key-other", ref.SM2.MulG(scalar(c)), id, m, r, s)
	judge(c, "key-G", ref.SM2.G, id, m, r, s)
	// hostile keys: off the curve, unreduced, negative, zero
	off := []ref.Pt{
		{X: cp(pub.X), Y: add(pub.Y, 1)}, {X: add(pub.X, 1), Y: cp(pub.Y)},
		{X: cp(pub.Y), Y: cp(pub.X)},
		{X: num(0), Y: num(0)}, {X: num(1), Y: num(1)},
	}
	for _, p := range off {
		if p.X.Sign() == 0 && p.Y.Sign() == 0 || !ref.SM2.On(p) {
			var got bool
			c.Note("pubX", p.X)
			c.Note("pubY", p.Y)
			c.NoPanic("VerifyByRS/off-curve", func() {
				got = sm2.VerifyByRS(&sm2.PublicKey{X: p.X, Y: p.Y, Curve: sm2.GetSm2P256V1()}, id, m, r, s)
			})
			c.Check(!got, "off-curve", "a signature verifies under a key off the curve")
			c.NoPanic("Verify/off-curve", func() {
				got = sm2.Verify(&sm2.PublicKey{X: p.X, Y: p.Y, Curve: sm2.GetSm2P256V1()}, id, m, ref.SigDER(r, s))
			})
			c.Check(!got, "off-curve", "a signature verifies under a key off the curve")
			c.Ev("rejected")
		}
	}
	// coordinates outside [0, p-1] that are congruent to the key's, with
	// signatures over every way to write such coordinates into Z
	ids := effID(id)
	neg := func(x *big.Int) *big.Int { return new(big.Int).Neg(x) }
	plus := func(x, y *big.Int) *big.Int { return new(big.Int).Add(x, y) }
	for _, p := range []ref.Pt{
		{X: plus(pub.X, bigP), Y: cp(pub.Y)}, {X: cp(pub.X), Y: plus(pub.Y, bigP)}, {X: plus(pub.X, bigP), Y: plus(pub.Y, bigP)},
		{X: plus(pub.X, new(big.Int).Lsh(bigP, 1)), Y: cp(pub.Y)}, {X: cp(pub.X), Y: plus(pub.Y, neg(bigP))},
		{X: plus(pub.X, neg(bigP)), Y: cp(pub.Y)}, {X: cp(pub.X), Y: neg(pub.Y)}, {X: cp(pub.X), Y: neg(ref.SM2.Neg(pub).Y)},
	} {
		last := func(b []byte) []byte { return ref.B32(new(big.Int).SetBytes(b[max(0, len(b)-32):])) }
		first := func(b []byte) []byte { return b[:min(len(b), 32)] }
		same := func(b []byte) []byte { return b }
		mod := func(b []byte) []byte { return nil }
		for vi, w := range []func([]byte) []byte{mod, same, last, first} {
			if vi > 0 && (vi+c.Idx)%3 != 0 {
				continue
			}
			xb, yb := w(p.X.Bytes()), w(p.Y.Bytes())
			if vi == 0 {
				xb, yb = ref.B32(pub.X), ref.B32(pub.Y)
			}
			z := ref.SM3([]byte{byte(len(ids) >> 5), byte(len(ids) << 3)}, ids, ref.B32(ref.SM2.A), ref.B32(ref.SM2.B), ref.B32(ref.SM2.G.X), ref.B32(ref.SM2.G.Y), xb, yb)
			r, s, ok := ref.SM2.SignK(d, new(big.Int).SetBytes(ref.SM3(z, m)), scalar(c))
			if !ok {
				continue
			}
			c.Note("pubX", p.X)
			c.Note("pubY", p.Y)
			key := &sm2.PublicKey{X: p.X, Y: p.Y, Curve: sm2.GetSm2P256V1()}
			var got, gotDER bool
			c.NoPanic("VerifyByRS/unreduced", func() { got = sm2.VerifyByRS(key, id, m, r, s) })
			c.NoPanic("Verify/unreduced", func() { gotDER = sm2.Verify(key, id, m, ref.SigDER(r, s)) })
			c.Check(!got && !gotDER, "unreduced-key", "a signature verifies under a key with coordinates outside [0, p-1]")
			c.Ev("rejected")
			c.Ev("unreduced-key")
		}
	}
	// the key at infinity: with P = O any (s, e + x(sG)) satisfies the bare equation
	z := ref.SM2.Z(ref.Pt{X: num(0), Y: num(0)}, func() []byte {
		if id == nil {
			return ref.DefaultID
		}
		return id
	}())
	e := new(big.Int).SetBytes(ref.SM3(z, m))
	s2 := scalar(c)
	r2 := new(big.Int).Add(e, ref.SM2.MulG(s2).X)
	r2.Mod(r2, bigN)
	var got bool
	c.NoPanic("VerifyByRS/infinity-key", func() {
		got = sm2.VerifyByRS(gmPub(ref.Pt{Inf: true}), id, m, r2, s2)
	})
	c.Check(!got, "infinity-key", "a signature verifies under the point at infinity")
	c.Ev("rejected")
}

// c10OpenSSL verifies signatures made by OpenSSL.
func c10OpenSSL(c *mon.Case) {
	v := strings.Fields(opensslSignatures[c.Idx])
	hx := func(s string) []byte {
		b, _ := hex.DecodeString(strings.TrimPrefix(s, "-"))
		return b
	}
	xy, id, m, sig := hx(v[0]), hx(v[1]), hx(v[2]), hx(v[3])
	pub := ref.Pt{X: new(big.Int).SetBytes(xy[:32]), Y: new(big.Int).SetBytes(xy[32:])}
	r, s, err := ref.ParseSig(sig)
	if err != nil || len(id) > 0 && !ref.SM2.Verify(pub, id, m, r, s) {
		panic("the oracle refuses OpenSSL's signature")
	}
	judgeDER(c, "openssl", pub, id, m, sig)
	judgeDER(c, "openssl", pub, nil, m, sig)
	judgeDER(c, "openssl-other", pub, append(id, 1), m, sig)
}

// c10Toy enumerates every (r, s) from -1 to n+1.
func c10Toy(c *mon.Case) {
	t := anyToy(c)
	cv := toyGM(t)
	if !toyHonoured(c, t, cv) {
		return
	}
	n := t.N.Int64()
	d := num(1 + int64(c.IntN(int(n-2))))
	pub := t.Mul(t.G, d)
	id, m := anyToyID(c), c.Bytes(c.IntN(20))
	e := t.E(pub, id, m)
	c.Note("toy", t)
	c.Note("d", d)
	c.Note("message", m)
	gp := &sm2.PublicKey{X: cp(pub.X), Y: cp(pub.Y), Curve: cv}
	acc := int64(0)
	for r := int64(-1); r <= n+1; r++ {
		for s := int64(-1); s <= n+1; s++ {
			want := t.VerifyE(pub, e, num(r), num(s))
			got := sm2.VerifyByRS(gp, id, m, num(r), num(s))
			if got != want {
				c.Fail("toy", "on y^2=x^3-3x+%v mod %v (n=%v, key %v) VerifyByRS(%d, %d) = %v, want %v", t.B, t.P, t.N, d, r, s, got, want)
			}
			if want {
				acc++
			}
		}
	}
	c.EvN("toy-pairs", (n+3)*(n+3))
	c.EvN("toy-accepted", acc)
	c.Distinct(t.P, t.B, d, id, m)
	c.Sample("p=%v b=%v n=%v d=%v: %d of %d pairs valid", t.P, t.B, t.N, d, acc, (n+3)*(n+3))
}

func anyInt(c *mon.Case) *big.Int {
	var x *big.Int
	switch c.IntN(8) {
	case 0:
		x = num(int64(c.IntN(600) - 300))
	case 1:
		x = new(big.Int).Lsh(bigOne, uint(c.IntN(300)))
	case 2:
		x = sub(new(big.Int).Lsh(bigOne, uint(c.IntN(300))), 1)
	case 3:
		x = new(big.Int).SetBytes(c.Bytes(c.IntN(140)))
	case 4:
		x = new(big.Int).SetBytes(c.Bytes(200 + c.IntN(400)))
	default:
		x = new(big.Int).SetBytes(c.Bytes(32))
		if c.IntN(3) == 0 {
			x.Rsh(x, uint(c.IntN(40)))
		}
	}
	if c.IntN(4) == 0 {
		x.Neg(x)
	}
	return x
}

func c12Round(c *mon.Case) {
	r, s := anyInt(c), anyInt(c)
	c.Note("r", r)
	c.Note("s", s)
	gr, gs := cp(r), cp(s)
	b, err := sm2.MarshalSign(gr, gs)
	if err != nil {
		c.Fail("encode", "MarshalSign failed: %v", err)
	}
	c.Check(gr.Cmp(r) == 0 && gs.Cmp(s) == 0, "modified", "MarshalSign changed its arguments")
	want := ref.SigDER(r, s)
	same(c, "encode", b, want, "MarshalSign(%x, %x)", r, s)
	c.Ev("encoded")
	c12Decode(c, b)
}

func c12Decode(c *mon.Case, b []byte) {
	wr, ws, werr := ref.ParseSig(b)
	c.Note("input", b)
	f := c.Freeze(b)
	var r, s *big.Int
	var err error
	c.NoPanic("UnmarshalSign", func() { r, s, err = sm2.UnmarshalSign(f.B) })
	if (err == nil) != (werr == nil) {
		c.Fail("decode-accept", "UnmarshalSign(%x): err=%v, but strict DER: %v", b, err, werr == nil)
	}
	if x := f.Changed(); x != "" {
		c.Fail("decode-modified", "UnmarshalSign modified its input: %s", x)
	}
	if err == nil {
		if r.Cmp(wr) != 0 || s.Cmp(ws) != 0 {
			c.Fail("decode-value", "UnmarshalSign(%x) = %x, %x, want %x, %x", b, r, s, wr, ws)
		}
		for i := range f.B {
			f.B[i] ^= 0xff
		}
		c.Check(r.Cmp(wr) == 0 && s.Cmp(ws) == 0, "decode-alias", "decoded integers share memory with the input")
		c.Ev("decode-accepted")
	} else {
		c.Check(r == nil && s == nil, "decode-output", "UnmarshalSign returned integers together with an error")
		c.Ev("decode-refused")
	}
	c.Distinct(b)
	c.Sample("%s -> err=%v", hexs(b), err)
}

func c12Mutate(c *mon.Case) {
	r, s := anyInt(c), anyInt(c)
	for _, b := range derMutants(c, ref.SigDER(r, s), r, s) {
		c12Decode(c, b)
	}
}

func c12Random(c *mon.Case) {
	for i := 0; i < 10; i++ {
		b := c.Bytes(c.IntN(80))
		if len(b) > 2 {
			b[0] = 0x30
			if c.IntN(2) == 0 {
				b[1] = byte(len(b) - 2)
			}
			if c.IntN(2) == 0 && len(b) > 4 {
				b[2] = 2
				b[3] = byte(c.IntN(len(b)))
			}
		}
		c12Decode(c, b)
	}
}
