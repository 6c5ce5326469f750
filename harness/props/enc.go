package props

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
	"strings"

	"github.com/ZZMarquis/gm/sm2"

	"vharness/mon"
	"vharness/ref"
)

func init() {
	register(&mon.Prop{
		ID:   "C13",
		Rule: "cases encrypt messages of every length class to keys of every edge kind with free and scripted randomness (ephemeral or shared points with leading zeros, all-zero key streams) and hand the ciphertext to an independent decryption; distinct by key, message and ciphertext",
		Workloads: []mon.Workload{
			{Name: "encrypt", Quick: 4500, Thorough: 36000, Run: c13Encrypt},
			{Name: "lengths", Quick: 300, Thorough: 1500, Run: c13Lengths},
			{Name: "one-byte", Quick: 4500, Thorough: 36000, Run: c13OneByte},
			{Name: "scripted-leading-zero", Quick: 360, Thorough: 2880, Run: c13LZ},
			{Name: "scripted-zero-stream", Quick: 300, Thorough: 2400, Run: c13Zero},
			{Name: "large", Quick: 5, Thorough: 15, CPUSeconds: 400, Run: c13Large},
			{Name: "reused", Quick: 150, Thorough: 1500, Run: c13Reused},
			{Name: "special-keys", Quick: 600, Thorough: 6000, Run: c13Special},
			{Name: "refused", Quick: 200, Thorough: 2000, Run: c13Refused},
		},
		Need: map[string]int64{"ciphertexts": 3000, "leading-zero": 100, "zero-stream-scripted": 100, "refused": 500, "reused-key-object": 100, "special-key-checked|special-key-unscripted": 300},
	})
	register(&mon.Prop{
		ID:   "C14",
		Rule: "cases decrypt ciphertexts made by an independent implementation (and by OpenSSL) for keys, lengths and points of every edge kind in both orders; distinct by ciphertext",
		Workloads: []mon.Workload{
			{Name: "decrypt", Quick: 25000, Thorough: 200000, Run: c14Decrypt},
			{Name: "lengths", Quick: 300, Thorough: 1500, Run: c14Lengths},
			{Name: "leading-zero", Quick: 1600, Thorough: 12800, Run: c14LZ},
			{Name: "special-points", Quick: 800, Thorough: 8000, Run: c14Special},
			{Name: "reused", Quick: 400, Thorough: 4000, Run: c14Reused},
			{Name: "openssl", Quick: len(opensslVectors), Thorough: len(opensslVectors), Run: c14OpenSSL},
			{Name: "large", Quick: 5, Thorough: 15, CPUSeconds: 400, Run: c14Large},
		},
		Need: map[string]int64{"decrypted": 3000, "leading-zero": 140, "special-point": 500, "reused-key-object": 300},
	})
	register(&mon.Prop{
		ID:   "C15",
		Rule: "cases corrupt genuine ciphertexts (every bit, truncation, extension, order, key, point encodings and invalid-curve points, compensated hash changes) and feed random bytes, expecting an error and no plaintext whenever an independent decryption refuses; distinct by input",
		Workloads: []mon.Workload{
			{Name: "all-bits", Quick: 40, Thorough: 320, CPUSeconds: 200, Run: c15Bits},
			{Name: "structure", Quick: 400, Thorough: 3200, Run: c15Structure},
			{Name: "c3", Quick: 300, Thorough: 2400, Run: c15C3},
			{Name: "points", Quick: 500, Thorough: 4000, Run: c15Points},
			{Name: "truncate", Quick: 60, Thorough: 480, Run: c15Truncate},
			{Name: "random", Quick: 750, Thorough: 10000, Run: c15Random},
			{Name: "large", Quick: 12, Thorough: 72, CPUSeconds: 400, Run: c15Large},
		},
		Need: map[string]int64{"refused": 20000, "bit-flips": 8000, "control": 300},
	})
	register(&mon.Prop{
		ID:   "C16",
		Rule: "cases encode raw ciphertexts with coordinates and data of every size class and decode them, and decode mutated and random DER, comparing with an independent codec; distinct by bytes",
		Workloads: []mon.Workload{
			{Name: "roundtrip", Quick: 120000, Thorough: 960000, Run: c16Round},
			{Name: "short", Quick: 300, Thorough: 3000, Run: c16Short},
			{Name: "mutations", Quick: 45000, Thorough: 360000, Run: c16Mutate},
			{Name: "bits", Quick: 900, Thorough: 7200, Run: c16Bits},
			{Name: "random", Quick: 22500, Thorough: 180000, Run: c16Random},
			{Name: "large", Quick: 6, Thorough: 24, CPUSeconds: 200, Run: c16Large},
			{Name: "large-mutations", Quick: 16, Thorough: 96, CPUSeconds: 200, Run: c16LargeMutate},
		},
		Need: map[string]int64{"encoded": 8000, "decoded": 8000, "refused": 30000},
	})
}

func anyOrder(c *mon.Case) (bool, sm2.Sm2CipherTextType) {
	if c.IntN(2) == 0 {
		return true, sm2.C1C3C2
	}
	return false, sm2.C1C2C3
}

func typeOf(c3First bool) sm2.Sm2CipherTextType {
	if c3First {
		return sm2.C1C3C2
	}
	return sm2.C1C2C3
}

var badTypes = []sm2.Sm2CipherTextType{0, 3, -1, 4, 1 << 30, -(1 << 31), 257, 258}

// c13One encrypts and checks one message.
func c13One(c *mon.Case, d *big.Int, kind string, m []byte, c3First bool) []byte {
	c.Note("d", d)
	c.Note("message", m)
	c.Note("c3-first", c3First)
	pub := ref.SM2.MulG(d)
	gp := slotPub(c, "encrypt", pub)
	f := c.FreezeAs("message", m)
	var ct []byte
	var err error
	c.NoPanic("Encrypt", func() { ct, err = sm2.Encrypt(gp, f.B, typeOf(c3First)) })
	if err != nil {
		c.Fail("error", "encryption of %d bytes failed: %v", len(m), err)
	}
	c.Note("ciphertext", ct)
	if x := f.Changed(); x != "" {
		c.Fail("modified", "Encrypt modified the message: %s", x)
	}
	c.Check(!f.Overlaps(ct), "alias", "the ciphertext shares memory with the message")
	c.Check(gp.X.Cmp(pub.X) == 0 && gp.Y.Cmp(pub.Y) == 0, "key-modified", "Encrypt changed the public key")
	if len(ct) != len(m)+97 {
		c.Fail("length", "the ciphertext of %d bytes is %d bytes long", len(m), len(ct))
	}
	c1, c2, _ := ref.Split(ct, c3First)
	p := ref.Pt{X: new(big.Int).SetBytes(c1[1:33]), Y: new(big.Int).SetBytes(c1[33:65])}
	if c1[0] != 4 || !ref.SM2.On(p) {
		c.Fail("c1", "C1 is not an uncompressed point on the curve: %x", c1)
	}
	if bytes.Equal(c2, m) {
		c.Fail("c2-plain", "C2 equals the %d-byte message: it was not encrypted", len(m))
	}
	got, err := ref.SM2.Decrypt(d, ct, c3First)
	if err != nil {
		c.Fail("peer", "an independent decryption refuses the ciphertext of %d bytes (key kind %s): %v", len(m), kind, err)
	}
	same(c, "peer-plain", got, m, "independent decryption")
	if x := p.X.BitLen() <= 248 || p.Y.BitLen() <= 248; x {
		c.Ev("c1-leading-zero")
	}
	got, err = sm2.Decrypt(slotPriv(c, "decrypt", d), ct, typeOf(c3First))
	if err != nil {
		c.Fail("self", "the library refuses its own ciphertext of %d bytes: %v", len(m), err)
	}
	same(c, "self-plain", got, m, "decryption")
	c.Ev("ciphertexts")
	c.Distinct(d, m, ct)
	return ct
}

func c13Encrypt(c *mon.Case) {
	d, kind := anyKey(c)
	m := c.Msg(1 + anyLen(c, 400))
	o, _ := anyOrder(c)
	ct := c13One(c, d, kind, m, o)
	c.Ev("key-" + kind)
	c.Sample("kind=%s msg=%d bytes c3First=%v ct=%s", kind, len(m), o, hexs(ct))
}

func c13Lengths(c *mon.Case) {
	n := 1 + c.Idx
	if c.Idx >= 260 {
		n = []int{511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8159, 8160, 8161, 8190, 8191, 8192, 8193, 8224, 8225, 16383, 16384, 16385, 20000, 65535, 65536, 65537, 100000}[(c.Idx-260)%26]
	}
	for _, o := range []bool{true, false} {
		c13One(c, keyOf(c, "rand"), "rand", c.Bytes(n), o)
	}
	c.Ev("length")
}

// c13Reused encrypts several times with the same key structures and message
// memory, which hold another value each time (points off the curve included).
func c13Reused(c *mon.Case) {
	n := 1 + c.IntN(60)
	for i := 0; i < 5; i++ {
		d, kind := anyKey(c)
		o, t := anyOrder(c)
		if i > 0 && c.IntN(3) == 0 {
			p := ref.SM2.MulG(d)
			p.Y = add(p.Y, 1)
			gp := slotPub(c, "encrypt", p)
			var ct []byte
			var err error
			c.NoPanic("Encrypt/reused", func() { ct, err = sm2.Encrypt(gp, c.Bytes(n), t) })
			c.Check(err != nil && ct == nil, "off-curve", "Encrypt accepted a key off the curve in a structure that held a good key before")
			c.Ev("refused")
			continue
		}
		c13One(c, d, kind, c.Bytes(n), o)
	}
}

func c13OneByte(c *mon.Case) {
	o, _ := anyOrder(c)
	c13One(c, keyOf(c, "rand"), "rand", c.Bytes(1+c.IntN(8)/7), o)
}

// c13LZ scripts the ephemeral scalar so that C1 or the shared point has a
// leading zero byte, and makes the key fit.
func c13LZ(c *mon.Case) {
	which := []string{"x", "y"}[c.IntN(2)]
	var d, k *big.Int
	for {
		if c.Idx%2 == 0 {
			k = lzScalar(c, which)
			d = keyOf(c, "rand")
		} else {
			// k d = m with mG short
			k = scalar(c)
			d = new(big.Int).Mul(lzScalar(c, which), new(big.Int).ModInverse(k, bigN))
			d.Mod(d, bigN)
		}
		if d.Sign() > 0 && d.Cmp(sub(bigN, 1)) < 0 {
			break
		}
	}
	c.RNG().Script = ref.B32(k)
	m := c.Msg(1 + anyLen(c, 100))
	for _, o := range []bool{true, false} {
		c.RNG().Script = ref.B32(k)
		ct := c13One(c, d, "lz", m, o)
		if c.Idx%2 == 0 && bytes.Equal(ct[1:33], ref.B32(ref.SM2.MulG(k).X)) || c.Idx%2 == 1 {
			c.Ev("leading-zero")
		}
	}
}

// c13Special encrypts to keys with special coordinates, whose private key
// nobody knows, under a scripted scalar.
func c13Special(c *mon.Case) {
	pub, k := specialPoint(c), scalar(c)
	o, t := anyOrder(c)
	m := c.Msg(1 + anyLen(c, 200))
	c.Note("x", pub.X)
	c.Note("y", pub.Y)
	c.Note("k", k)
	c.Note("message", m)
	c.RNG().Script = ref.B32(k)
	var ct []byte
	var err error
	c.NoPanic("Encrypt/special", func() { ct, err = sm2.Encrypt(gmPub(pub), m, t) })
	if err != nil || len(ct) != len(m)+97 {
		c.Fail("special-error", "Encrypt to a special key gave %d bytes, %v", len(ct), err)
	}
	c1, c2, c3, ok := ref.SM2.EncryptK(pub, m, k)
	g1, g2, _ := ref.Split(ct, o)
	c.Check(g1[0] == 4 && ref.SM2.On(ref.Pt{X: new(big.Int).SetBytes(g1[1:33]), Y: new(big.Int).SetBytes(g1[33:65])}), "special-c1", "C1 is not a point on the curve")
	c.Check(!bytes.Equal(g2, m), "special-plain", "C2 equals the message")
	if ok && bytes.Equal(c1, g1) {
		same(c, "special-ciphertext", ct, ref.Join(c1, c2, c3, o), "ciphertext to a key with x = %x under a known scalar", pub.X)
		c.Ev("special-key-checked")
	} else {
		c.Ev("special-key-unscripted")
	}
	c.Distinct(pub, k, m)
}

// c13Zero scripts ephemeral scalars whose key stream is all zero, which the
// standard says to skip.
func c13Zero(c *mon.Case) {
	d := keyOf(c, "rand")
	pub := ref.SM2.MulG(d)
	n := 1
	var bad []byte
	var ks []*big.Int
	k := scalar(c)
	p2 := ref.SM2.Mul(pub, k)
	want := 1 + c.IntN(3)
	for tries := 0; len(ks) < want && tries < 4000; tries++ {
		if ref.KDF(n, ref.B32(p2.X), ref.B32(p2.Y))[0] == 0 {
			ks = append(ks, cp(k))
			bad = append(bad, ref.B32(k)...)
		}
		k = add(k, 1)
		p2 = ref.SM2.Add(p2, pub)
		if p2.Inf || k.Cmp(bigN) >= 0 {
			break
		}
	}
	c.Note("skipped", bad)
	for _, o := range []bool{true, false} {
		c.RNG().Script = clone(bad)
		c13One(c, d, "zero-stream", c.Bytes(n), o)
		c.EvN("zero-stream-scripted", int64(len(ks)))
	}
}

func c13Large(c *mon.Case) {
	n := 65536*32 + 1 + c.IntN(70) // block counter passes 2^16
	if c.Thorough() && c.Idx == 0 {
		n = (1<<24)*32 + 33 // block counter passes 2^24
	}
	if c.Idx%2 == 1 {
		n = 1<<20 + c.IntN(100)
	}
	if c.Idx%5 == 4 {
		n = 1<<24 + 1 + c.IntN(100)
	}
	d := keyOf(c, "rand")
	m := make([]byte, n)
	for i := range m {
		m[i] = byte(i * 7 >> 3)
	}
	c13One(c, d, "large", m, c.Idx%2 == 0)
	c.Ev("large")
}

func c13Refused(c *mon.Case) {
	d := keyOf(c, "rand")
	pub := ref.SM2.MulG(d)
	gp := gmPub(pub)
	m := c.Msg(1 + c.IntN(60))
	refuse := func(key string, p *sm2.PublicKey, m []byte, t sm2.Sm2CipherTextType, what string) {
		var ct []byte
		var err error
		c.Note("x", p.X)
		c.Note("y", p.Y)
		c.NoPanic("Encrypt/"+key, func() { ct, err = sm2.Encrypt(p, m, t) })
		c.Check(err != nil, key, "Encrypt accepted %s", what)
		c.Check(ct == nil, key+"/output", "Encrypt returned bytes together with the error for %s", what)
		c.Ev("refused")
	}
	for _, t := range []sm2.Sm2CipherTextType{sm2.C1C3C2, sm2.C1C2C3} {
		refuse("empty", gp, nil, t, "an empty message")
		refuse("empty", gp, []byte{}, t, "an empty message")
		off := []*sm2.PublicKey{
			{X: cp(pub.X), Y: add(pub.Y, 1)}, {X: add(pub.X, 1), Y: cp(pub.Y)}, {X: cp(pub.Y), Y: cp(pub.X)},
			{X: num(0), Y: num(0)}, {X: num(0), Y: num(1)}, {X: below(c, bigP), Y: below(c, bigP)},
			{X: cp(pub.X), Y: num(0)},
		}
		unreduced := []ref.Pt{
			{X: new(big.Int).Add(pub.X, bigP), Y: cp(pub.Y)}, {X: cp(pub.X), Y: new(big.Int).Add(pub.Y, bigP)},
			{X: new(big.Int).Sub(pub.X, bigP), Y: cp(pub.Y)}, {X: cp(pub.X), Y: new(big.Int).Sub(pub.Y, bigP)},
			{X: cp(pub.X), Y: new(big.Int).Neg(pub.Y)}, {X: new(big.Int).Neg(pub.X), Y: cp(pub.Y)},
		}
		if s := smallX(c); true {
			unreduced = append(unreduced, ref.Pt{X: new(big.Int).Add(s.X, bigP), Y: s.Y})
		}
		for _, p := range unreduced {
			refuse("unreduced", &sm2.PublicKey{X: p.X, Y: p.Y, Curve: sm2.GetSm2P256V1()}, m, t, "a key with a coordinate outside [0, p-1]")
		}
		for _, p := range off {
			if p.X.Sign() != 0 && ref.SM2.On(ref.Pt{X: p.X, Y: p.Y}) {
				continue
			}
			p.Curve = sm2.GetSm2P256V1()
			refuse("off-curve", p, m, t, "a key off the curve")
		}
	}
	for _, t := range badTypes {
		refuse("order", gp, m, t, fmt.Sprintf("the unknown order %d", t))
	}
	c.Distinct(d, m)
}

// refEncrypt makes a conforming ciphertext with the given or a random scalar.
func refEncrypt(c *mon.Case, pub ref.Pt, m []byte, k *big.Int, c3First bool) []byte {
	for {
		if k == nil {
			k = scalar(c)
		}
		c1, c2, c3, ok := ref.SM2.EncryptK(pub, m, k)
		if ok {
			return ref.Join(c1, c2, c3, c3First)
		}
		k = nil
	}
}

func c14One(c *mon.Case, d *big.Int, ct, m []byte, c3First bool, what string) {
	c.Note("d", d)
	c.Note("ciphertext", ct)
	f := c.FreezeAs("ct", ct)
	priv := slotPriv(c, "decrypt", d)
	var got []byte
	var err error
	c.NoPanic("Decrypt", func() { got, err = sm2.Decrypt(priv, f.B, typeOf(c3First)) })
	if err != nil {
		c.Fail("refused", "Decrypt refused a conforming ciphertext of %d bytes (%s): %v", len(m), what, err)
	}
	same(c, "plain", got, m, "Decrypt (%s)", what)
	if x := f.Changed(); x != "" {
		c.Fail("modified", "Decrypt modified the ciphertext: %s", x)
	}
	c.Check(!f.Overlaps(got), "alias", "the plaintext shares memory with the ciphertext")
	c.Check(priv.D.Cmp(d) == 0, "key-modified", "Decrypt changed the private key")
	c.Ev("decrypted")
	c.Distinct(ct)
}

func c14Decrypt(c *mon.Case) {
	d, kind := anyKey(c)
	m := c.Msg(1 + anyLen(c, 400))
	o, _ := anyOrder(c)
	var k *big.Int
	if c.IntN(4) == 0 {
		k = []*big.Int{num(1), num(2), num(3), sub(bigN, 1), sub(bigN, 2), new(big.Int).Rsh(bigN, 1)}[c.IntN(6)]
	}
	ct := refEncrypt(c, ref.SM2.MulG(d), m, k, o)
	c14One(c, d, ct, m, o, kind)
	c.Ev("key-" + kind)
	c.Sample("kind=%s msg=%d bytes c3First=%v", kind, len(m), o)
}

// c14Reused decrypts several times with the same key structure and
// ciphertext memory, which hold another value each time; the wrong key in the
// structure that held the right one must be refused.
func c14Reused(c *mon.Case) {
	n := 1 + c.IntN(60)
	for i := 0; i < 5; i++ {
		d, kind := anyKey(c)
		m := c.Bytes(n)
		o, t := anyOrder(c)
		ct := refEncrypt(c, ref.SM2.MulG(d), m, nil, o)
		c14One(c, d, ct, m, o, kind)
		if d2 := keyOf(c, "rand"); d2.Cmp(d) != 0 {
			got, err := sm2.Decrypt(slotPriv(c, "decrypt", d2), ct, t)
			c.Check(err != nil && got == nil, "wrong-key", "Decrypt accepted another key in a structure that held the right key before")
		}
	}
}

func c14Lengths(c *mon.Case) {
	n := 1 + c.Idx
	if c.Idx >= 260 {
		n = []int{511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8159, 8160, 8161, 8190, 8191, 8192, 8193, 8224, 8225, 16383, 16384, 16385, 20000, 65535, 65536, 65537, 100000}[(c.Idx-260)%26]
	}
	for _, o := range []bool{true, false} {
		d := keyOf(c, "rand")
		m := c.Bytes(n)
		c14One(c, d, refEncrypt(c, ref.SM2.MulG(d), m, nil, o), m, o, "length")
	}
}

func c14LZ(c *mon.Case) {
	which := []string{"x", "y"}[c.IntN(2)]
	o, _ := anyOrder(c)
	m := c.Msg(1 + anyLen(c, 100))
	var d, k *big.Int
	for {
		if c.Idx%2 == 0 {
			k, d = lzScalar(c, which), keyOf(c, "rand")
		} else {
			k = scalar(c)
			d = new(big.Int).Mul(lzScalar(c, which), new(big.Int).ModInverse(k, bigN))
			d.Mod(d, bigN)
		}
		if d.Sign() > 0 && d.Cmp(sub(bigN, 1)) < 0 {
			break
		}
	}
	ct := refEncrypt(c, ref.SM2.MulG(d), m, k, o)
	c14One(c, d, ct, m, o, "leading zero "+which)
	c.Ev("leading-zero")
	// and through the DER codec
	der, err := sm2.MarshalCipher(ct, typeOf(o))
	if err != nil {
		c.Fail("codec", "MarshalCipher: %v", err)
	}
	raw, err := sm2.UnmarshalCipher(der, typeOf(o))
	if err != nil || !bytes.Equal(raw, ct) {
		c.Fail("codec", "the ciphertext does not survive the DER codec: %v", err)
	}
}

// c14Special decrypts ciphertexts whose C1 has special coordinates, as any
// sender may choose.
func c14Special(c *mon.Case) {
	d, _ := anyKey(c)
	o, _ := anyOrder(c)
	m := c.Msg(1 + anyLen(c, 200))
	p := specialPoint(c)
	s := ref.SM2.Mul(p, d)
	t := ref.KDF(len(m), ref.B32(s.X), ref.B32(s.Y))
	zero := true
	c2 := clone(m)
	for i := range c2 {
		c2[i] ^= t[i]
		zero = zero && t[i] == 0
	}
	if zero {
		return
	}
	c1 := append([]byte{4}, append(ref.B32(p.X), ref.B32(p.Y)...)...)
	ct := ref.Join(c1, c2, ref.SM3(ref.B32(s.X), m, ref.B32(s.Y)), o)
	c14One(c, d, ct, m, o, "special C1")
	c.Ev("special-point")
}

func c14Large(c *mon.Case) {
	n := 65536*32 + 1 + c.IntN(70)
	if c.Idx%2 == 1 {
		n = 1<<20 + c.IntN(100)
	}
	if c.Idx%5 == 4 {
		n = 1<<24 + 1 + c.IntN(100)
	}
	d := keyOf(c, "rand")
	m := make([]byte, n)
	for i := range m {
		m[i] = byte(i * 5 >> 2)
	}
	o := c.Idx%2 == 0
	c14One(c, d, refEncrypt(c, ref.SM2.MulG(d), m, nil, o), m, o, "large")
}

func c14OpenSSL(c *mon.Case) {
	v := strings.Fields(opensslVectors[c.Idx])
	d, _ := new(big.Int).SetString(v[0], 16)
	m, _ := hex.DecodeString(v[1])
	der, _ := hex.DecodeString(v[2])
	var raw []byte
	var err error
	c.NoPanic("UnmarshalCipher", func() { raw, err = sm2.UnmarshalCipher(der, sm2.C1C3C2) })
	if err != nil {
		c.Fail("openssl-codec", "UnmarshalCipher refused OpenSSL's ciphertext: %v", err)
	}
	c14One(c, d, raw, m, true, "OpenSSL")
	c1, c2, c3 := ref.Split(raw, true)
	c14One(c, d, ref.Join(c1, c2, c3, false), m, false, "OpenSSL reordered")
}

// c15One expects what the independent decryption says.
func c15One(c *mon.Case, key string, d *big.Int, ct []byte, c3First bool) bool {
	want, werr := ref.SM2.Decrypt(d, ct, c3First)
	if werr == nil && len(want) == 0 {
		return true // the standard leaves empty messages open
	}
	c.Note("d", d)
	c.Note("input", ct)
	c.Note("c3-first", c3First)
	var got []byte
	var err error
	priv := gmPriv(d)
	f := c.Freeze(ct)
	c.NoPanic("Decrypt/"+key, func() { got, err = sm2.Decrypt(priv, f.B, typeOf(c3First)) })
	if werr != nil && err == nil {
		c.Fail(key, "Decrypt accepted a tampered or malformed ciphertext of %d bytes (%s)", len(ct), key)
	}
	if err != nil {
		c.Check(got == nil, key+"/plaintext", "Decrypt returned %d bytes together with the error", len(got))
	}
	if werr == nil {
		if err != nil || !bytes.Equal(got, want) {
			c.Fail(key+"/control", "Decrypt does not decrypt a genuine ciphertext: %v", err)
		}
		c.Ev("control")
	} else {
		c.Ev("refused")
	}
	if x := f.Changed(); x != "" {
		c.Fail(key+"/modified", "Decrypt modified its input: %s", x)
	}
	c.Distinct(d, ct, c3First)
	return werr == nil
}

func c15Bits(c *mon.Case) {
	d := keyOf(c, "rand")
	m := c.Msg(1 + c.IntN(34))
	o := c.Idx%2 == 0
	ct := refEncrypt(c, ref.SM2.MulG(d), m, nil, o)
	c15One(c, "control", d, ct, o)
	n := 0
	for i := 0; i < len(ct)*8; i++ {
		// C1 bits are cheap, the rest cost a point multiplication
		if !c.Thorough() && i%2 != c.Idx/2%2 && i >= 520 {
			continue
		}
		x := clone(ct)
		x[i/8] ^= 1 << uint(i%8)
		c15One(c, "bit", d, x, o)
		n++
	}
	c.EvN("bit-flips", int64(n))
	c.Sample("all bits of a %d-byte ciphertext, c3First=%v", len(ct), o)
}

func c15Structure(c *mon.Case) {
	d, _ := anyKey(c)
	pub := ref.SM2.MulG(d)
	m := c.Msg(1 + anyLen(c, 100))
	o, _ := anyOrder(c)
	ct := refEncrypt(c, pub, m, nil, o)
	c15One(c, "control", d, ct, o)
	c15One(c, "order", d, ct, !o)
	for _, t := range badTypes {
		var got []byte
		var err error
		c.NoPanic("Decrypt/unknown-order", func() { got, err = sm2.Decrypt(gmPriv(d), ct, t) })
		c.Check(err != nil && got == nil, "unknown-order", "Decrypt accepted the unknown order %d", t)
		c.Ev("refused")
	}
	// other keys
	for _, x := range []*big.Int{add(d, 1), sub(d, 1), new(big.Int).Sub(bigN, d), scalar(c), num(1), new(big.Int).Rsh(d, 1)} {
		if x.Sign() > 0 && x.Cmp(sub(bigN, 2)) <= 0 && x.Cmp(d) != 0 {
			c15One(c, "wrong-key", x, ct, o)
		}
	}
	// lengths
	for _, n := range []int{1, 2, 31, 32, 33} {
		if n <= len(ct) {
			c15One(c, "truncated", d, ct[:len(ct)-n], o)
			c15One(c, "truncated-front", d, ct[n:], o)
		}
		c15One(c, "extended", d, append(clone(ct), make([]byte, n)...), o)
		c15One(c, "extended", d, append(clone(ct), c.Bytes(n)...), o)
		c15One(c, "extended", d, append(clone(ct), ct[len(ct)-min(n, len(ct)):]...), o)
		c15One(c, "extended-front", d, append(make([]byte, n), ct...), o)
	}
	// parts permuted, inserted and removed
	c1, c2, c3 := ref.Split(ct, o)
	z := append(clone(c2), c3...)
	c15One(c, "parts", d, append(clone(c1), append(clone(c3), z...)...), o)
	c15One(c, "parts", d, ref.Join(c1, append([]byte{0}, c2...), c3, o), o)
	c15One(c, "parts", d, ref.Join(c1, append(clone(c2), 0), c3, o), o)
	c15One(c, "parts", d, ref.Join(c1, c2[:len(c2)-1], c3, o), o)
	if len(c2) > 1 {
		c15One(c, "parts", d, ref.Join(c1, c2[1:], c3, o), o)
		i, j := c.IntN(len(c2)), c.IntN(len(c2))
		if c2[i] != c2[j] {
			x := clone(c2)
			x[i], x[j] = x[j], x[i]
			c15One(c, "c2-swapped", d, ref.Join(c1, x, c3, o), o)
		}
		x := clone(c2)
		i = c.IntN(len(c2) - 1)
		x[i] ^= 0x55
		x[i+1] ^= 0x55
		c15One(c, "c2-compensated", d, ref.Join(c1, x, c3, o), o)
	}
	// a different genuine ciphertext's parts
	ct2 := refEncrypt(c, pub, m, nil, o)
	d1, d2, d3 := ref.Split(ct2, o)
	c15One(c, "mixed", d, ref.Join(c1, c2, d3, o), o)
	c15One(c, "mixed", d, ref.Join(c1, d2, c3, o), o)
	c15One(c, "mixed", d, ref.Join(d1, c2, c3, o), o)
	c15One(c, "mixed", d, ref.Join(c1, d2, d3, o), o)
	// hash over the wrong content
	p2 := ref.SM2.Mul(ptFrom(c1), d)
	x2, y2 := ref.B32(p2.X), ref.B32(p2.Y)
	for _, h := range [][]byte{ref.SM3(m), ref.SM3(x2, m), ref.SM3(m, y2), ref.SM3(y2, m, x2), ref.SM3(x2, y2, m), ref.SM3(x2, c2, y2), make([]byte, 32), ref.SM3(x2, y2)} {
		if !bytes.Equal(h, c3) {
			c15One(c, "hash", d, ref.Join(c1, c2, h, o), o)
		}
	}
	// the DER form instead of the raw one
	der, _ := ref.CipherDER(ct, o)
	c15One(c, "der", d, der, o)
	c.Sample("%d-byte ciphertext, c3First=%v", len(ct), o)
}

func ptFrom(c1 []byte) ref.Pt {
	return ref.Pt{X: new(big.Int).SetBytes(c1[1:33]), Y: new(big.Int).SetBytes(c1[33:65])}
}

// c15C3 changes the hash in ways a careless comparison misses.
func c15C3(c *mon.Case) {
	d := keyOf(c, "rand")
	m := c.Msg(1 + anyLen(c, 60))
	o, _ := anyOrder(c)
	ct := refEncrypt(c, ref.SM2.MulG(d), m, nil, o)
	c1, c2, c3 := ref.Split(ct, o)
	c15One(c, "control", d, ct, o)
	try := func(key string, h []byte) {
		if !bytes.Equal(h, c3) {
			c15One(c, key, d, ref.Join(c1, c2, h, o), o)
		}
	}
	for i := 0; i < 6; i++ {
		a, b := c.IntN(32), c.IntN(32)
		h := clone(c3)
		v := byte(1 + c.IntN(255))
		h[a] ^= v
		if a != b {
			h[b] ^= v
		}
		try("c3-compensated-xor", h)
		h = clone(c3)
		h[a] += v
		h[b] -= v
		try("c3-compensated-add", h)
		h = clone(c3)
		h[a], h[b] = h[b], h[a]
		try("c3-swapped", h)
		h = clone(c3)
		for j := 0; j < 2+c.IntN(6); j++ {
			h[c.IntN(32)] ^= byte(c.Uint32())
		}
		try("c3-random", h)
		// only one half, quarter or byte right
		h = c.Bytes(32)
		n := []int{1, 4, 8, 16, 20, 24, 31}[c.IntN(7)]
		copy(h, c3[:n])
		try("c3-prefix", h)
		h = c.Bytes(32)
		copy(h[32-n:], c3[32-n:])
		try("c3-suffix", h)
	}
	h := clone(c3)
	for i := range h {
		h[i] ^= 0xff
	}
	try("c3-complement", h)
	try("c3-zero", make([]byte, 32))
	h = clone(c3)
	for i := range h {
		h[i] = c3[31-i]
	}
	try("c3-reversed", h)
	try("c3-rotated", append(clone(c3[1:]), c3[0]))
}

// c15Points uses points the decryption must refuse, with C2 and C3 computed
// so that a decryption without the point check would accept.
func c15Points(c *mon.Case) {
	d := keyOf(c, "rand")
	m := c.Msg(1 + anyLen(c, 60))
	o, _ := anyOrder(c)
	pub := ref.SM2.MulG(d)
	ct := refEncrypt(c, pub, m, nil, o)
	c1, c2, c3 := ref.Split(ct, o)
	p := ptFrom(c1)
	put := func(key string, b []byte) { c15One(c, key, d, ref.Join(b, c2, c3, o), o) }
	enc := func(t byte, x, y *big.Int) []byte { return append([]byte{t}, append(ref.B32(x), ref.B32(y)...)...) }
	for _, t := range []byte{0, 1, 2, 3, 5, 6, 7, 8, 0x14, 0x84, 0xff} {
		put("prefix", enc(t, p.X, p.Y))
	}
	put("negated", enc(4, p.X, new(big.Int).Sub(bigP, p.Y)))
	put("swapped", enc(4, p.Y, p.X))
	put("zero", enc(4, num(0), num(0)))
	put("x-zero", enc(4, num(0), p.Y))
	put("y-zero", enc(4, p.X, num(0)))
	put("p-p", enc(4, bigP, bigP))
	put("doubled", enc(4, ref.SM2.Add(p, p).X, ref.SM2.Add(p, p).Y))
	// invalid-curve point with matching C2, C3: computed with the same
	// affine formulas, which do not use b
	q := ref.Pt{X: below(c, bigP), Y: below(c, bigP)}
	if !ref.SM2.On(q) {
		if s := mulAnyCurve(q, d); !s.Inf {
			t := ref.KDF(len(m), ref.B32(s.X), ref.B32(s.Y))
			y2 := clone(m)
			for i := range y2 {
				y2[i] ^= t[i]
			}
			h := ref.SM3(ref.B32(s.X), m, ref.B32(s.Y))
			c15One(c, "invalid-curve", d, ref.Join(enc(4, q.X, q.Y), y2, h, o), o)
			c.Ev("invalid-curve")
		}
	}
	// the point at infinity, with the key stream of (0, 0)
	for _, xy := range [][2]*big.Int{{num(0), num(0)}} {
		t := ref.KDF(len(m), ref.B32(xy[0]), ref.B32(xy[1]))
		y2 := clone(m)
		for i := range y2 {
			y2[i] ^= t[i]
		}
		h := ref.SM3(ref.B32(xy[0]), m, ref.B32(xy[1]))
		c15One(c, "infinity", d, ref.Join(enc(4, num(0), num(0)), y2, h, o), o)
		c15One(c, "infinity", d, ref.Join(enc(4, bigP, bigP), y2, h, o), o)
		c15One(c, "infinity-short", d, append([]byte{0}, append(clone(y2), h...)...), o)
	}
	// unreduced coordinates: x + p still fits in 32 bytes for small x
	sp := smallX(c)
	k2 := ref.SM2.Mul(sp, d)
	t := ref.KDF(len(m), ref.B32(k2.X), ref.B32(k2.Y))
	y2 := clone(m)
	zero := true
	for i := range y2 {
		y2[i] ^= t[i]
		zero = zero && t[i] == 0
	}
	h := ref.SM3(ref.B32(k2.X), m, ref.B32(k2.Y))
	if !zero {
		c15One(c, "small-x", d, ref.Join(enc(4, sp.X, sp.Y), y2, h, o), o)
	}
	if u := new(big.Int).Add(sp.X, bigP); u.BitLen() <= 256 {
		c15One(c, "unreduced", d, ref.Join(enc(4, u, sp.Y), y2, h, o), o)
		c.Ev("unreduced")
	}
	// compressed form of the right point in place of C1
	comp := append([]byte{2 + byte(p.Y.Bit(0))}, ref.B32(p.X)...)
	c15One(c, "compressed", d, ref.Join(comp, c2, c3, o), o)
}

// mulAnyCurve multiplies on whatever curve y^2=x^3-3x+b' the point lies.
func mulAnyCurve(p ref.Pt, k *big.Int) ref.Pt {
	add := func(a, b ref.Pt) ref.Pt {
		if a.Inf {
			return b
		}
		if b.Inf {
			return a
		}
		var l *big.Int
		if a.X.Cmp(b.X) == 0 {
			if a.Y.Cmp(b.Y) != 0 || a.Y.Sign() == 0 {
				return ref.Pt{Inf: true}
			}
			l = new(big.Int).Mul(a.X, a.X)
			l.Mul(l, num(3)).Sub(l, num(3))
			l.Mul(l, new(big.Int).ModInverse(new(big.Int).Lsh(a.Y, 1), bigP))
		} else {
			l = new(big.Int).Sub(b.Y, a.Y)
			dx := new(big.Int).Sub(b.X, a.X)
			l.Mul(l, new(big.Int).ModInverse(dx.Mod(dx, bigP), bigP))
		}
		l.Mod(l, bigP)
		x := new(big.Int).Mul(l, l)
		x.Sub(x, a.X).Sub(x, b.X).Mod(x, bigP)
		y := new(big.Int).Sub(a.X, x)
		y.Mul(y, l).Sub(y, a.Y).Mod(y, bigP)
		return ref.Pt{X: x, Y: y}
	}
	r := ref.Pt{Inf: true}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = add(r, r)
		if k.Bit(i) == 1 {
			r = add(r, p)
		}
	}
	return r
}

func c15Truncate(c *mon.Case) {
	d := keyOf(c, "rand")
	m := c.Msg(2 + c.IntN(10))
	o, _ := anyOrder(c)
	ct := refEncrypt(c, ref.SM2.MulG(d), m, nil, o)
	for n := 0; n < len(ct); n++ {
		c15One(c, "prefix-of", d, ct[:n], o)
	}
	var got []byte
	var err error
	c.NoPanic("Decrypt/nil", func() { got, err = sm2.Decrypt(gmPriv(d), nil, typeOf(o)) })
	c.Check(err != nil && got == nil, "nil", "Decrypt accepted nil")
	c.Ev("refused")
}

func c15Random(c *mon.Case) {
	d, _ := anyKey(c)
	for i := 0; i < 20; i++ {
		o, _ := anyOrder(c)
		b := c.Msg(c.IntN(200))
		if c.IntN(2) == 0 && len(b) > 0 {
			b[0] = 4
		}
		if c.IntN(3) == 0 && len(b) >= 65 {
			p := ref.SM2.MulG(scalar(c))
			b[0] = 4
			copy(b[1:], ref.B32(p.X))
			copy(b[33:], ref.B32(p.Y))
		}
		c15One(c, "random", d, b, o)
	}
}

// c15Large tampers with long ciphertexts, at both ends of every part and at
// the powers of two.
func c15Large(c *mon.Case) {
	n := []int{4000, 8193, 1<<14 + 1, 1<<15 + 5, 65535, 65536, 65537, 70000, 1<<17 + 3, 1<<18 + 1, 1<<20 + 1, 65536*32 + 33}[c.Idx%12]
	d := keyOf(c, "rand")
	m := make([]byte, n)
	for i := range m {
		m[i] = byte(i * 3 >> 1)
	}
	o := (c.Idx+c.Idx/12)%2 == 0
	ct := refEncrypt(c, ref.SM2.MulG(d), m, nil, o)
	c15One(c, "large-control", d, ct, o)
	_, c2, _ := ref.Split(ct, o)
	at2, at3 := 65, 65+len(c2)
	if o {
		at2, at3 = 97, 65
	}
	at := []int{at2, at2 + n/2, at2 + n - 1, at2 + c.IntN(n), at3, at3 + 31, at3 + c.IntN(32), 64}
	for p := 256; p < n; p *= 16 {
		at = append(at, at2+p-1, at2+p)
	}
	if n > 1<<18 {
		at = at[:8]
	}
	for _, i := range at {
		x := clone(ct)
		x[i] ^= 1 << c.IntN(8)
		c15One(c, "large-bit", d, x, o)
	}
	c15One(c, "large-truncated", d, ct[:len(ct)-1], o)
	c15One(c, "large-extended", d, append(clone(ct), byte(c.Uint32())), o)
	x := clone(ct)
	copy(x[at3:], c.Bytes(32))
	c15One(c, "large-c3", d, x, o)
	c.Ev("large")
	c.Sample("%d-byte message, c3First=%v", n, o)
}

// anyRaw is a raw ciphertext shape (not necessarily a real ciphertext).
func anyRaw(c *mon.Case, n int) []byte {
	b := c.Bytes(97 + n)
	b[0] = 4
	for _, off := range []int{1, 33} {
		switch c.IntN(6) {
		case 0:
			for i := 0; i < 1+c.IntN(31); i++ {
				b[off+i] = 0
			}
		case 1:
			for i := 0; i < 32; i++ {
				b[off+i] = 0
			}
		case 2:
			for i := 0; i < 32; i++ {
				b[off+i] = 0xff
			}
		case 3:
			b[off] &= 0x7f
		case 4:
			b[off] |= 0x80
		}
	}
	return b
}

var cipherLens = []int{0, 1, 2, 10, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 120, 126, 127, 128, 129, 130, 140, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 250, 255, 256, 257}

func c16Round(c *mon.Case) {
	n := c.IntN(300)
	if c.IntN(2) == 0 {
		n = cipherLens[c.IntN(len(cipherLens))]
	}
	c16Encode(c, anyRaw(c, n))
}

func c16Encode(c *mon.Case, raw []byte) {
	o, t := anyOrder(c)
	c.Note("raw", raw)
	c.Note("c3-first", o)
	f := c.Freeze(raw)
	var der []byte
	var err error
	c.NoPanic("MarshalCipher", func() { der, err = sm2.MarshalCipher(f.B, t) })
	if err != nil {
		c.Fail("encode", "MarshalCipher refused %d bytes: %v", len(raw), err)
	}
	want, _ := ref.CipherDER(raw, o)
	same(c, "encode", der, want, "MarshalCipher(c3First=%v)", o)
	if x := f.Changed(); x != "" {
		c.Fail("modified", "MarshalCipher modified its input: %s", x)
	}
	c.Check(!f.Overlaps(der), "alias", "the encoding shares memory with the input")
	c.Ev("encoded")
	g := c.Freeze(der)
	var back []byte
	c.NoPanic("UnmarshalCipher", func() { back, err = sm2.UnmarshalCipher(g.B, t) })
	if err != nil {
		c.Fail("roundtrip", "UnmarshalCipher refused MarshalCipher's output: %v", err)
	}
	same(c, "roundtrip", back, raw, "UnmarshalCipher(MarshalCipher(raw))")
	if x := g.Changed(); x != "" {
		c.Fail("modified", "UnmarshalCipher modified its input: %s", x)
	}
	c.Check(!g.Overlaps(back), "alias", "the raw ciphertext shares memory with the DER")
	c.Ev("decoded")
	c.Distinct(raw, o)
	c.Sample("%d bytes c3First=%v der=%s", len(raw), o, hexs(der))
}

func c16Large(c *mon.Case) {
	c16Encode(c, anyRaw(c, []int{65300, 65400, 65536, 70000, 1 << 20, 1<<24 + 5}[c.Idx%6]))
}

func c16Short(c *mon.Case) {
	_, t := anyOrder(c)
	refuse := func(key string, raw []byte, t sm2.Sm2CipherTextType) {
		c.Note("raw", raw)
		var der []byte
		var err error
		c.NoPanic("MarshalCipher/"+key, func() { der, err = sm2.MarshalCipher(raw, t) })
		c.Check(err != nil && der == nil, key, "MarshalCipher accepted %d bytes (%s)", len(raw), key)
		c.Ev("refused")
	}
	raw := anyRaw(c, c.IntN(40))
	for n := 0; n < 97; n++ {
		refuse("short", raw[:n], t)
	}
	refuse("nil", nil, t)
	for _, p := range []byte{0, 1, 2, 3, 5, 6, 7, 0x84, byte(c.Uint32())} {
		if p != 4 {
			x := clone(raw)
			x[0] = p
			refuse("prefix", x, t)
		}
	}
	for _, bt := range badTypes {
		refuse("order", raw, bt)
		der, _ := ref.CipherDER(raw, true)
		var out []byte
		var err error
		c.NoPanic("UnmarshalCipher/order", func() { out, err = sm2.UnmarshalCipher(der, bt) })
		c.Check(err != nil && out == nil, "decode-order", "UnmarshalCipher accepted the unknown order %d", bt)
	}
	c.Distinct(raw)
}

func c16Decode(c *mon.Case, der []byte, o bool) {
	want, werr := ref.ParseCipher(der, o)
	c.Note("der", der)
	c.Note("c3-first", o)
	f := c.Freeze(der)
	var got []byte
	var err error
	c.NoPanic("UnmarshalCipher", func() { got, err = sm2.UnmarshalCipher(f.B, typeOf(o)) })
	if (err == nil) != (werr == nil) {
		c.Fail("decode-accept", "UnmarshalCipher(%s): err=%v, but valid encoding: %v", hexs(der), err, werr == nil)
	}
	if err == nil {
		same(c, "decode-value", got, want, "UnmarshalCipher")
		c.Ev("decoded")
	} else {
		c.Check(got == nil, "decode-output", "UnmarshalCipher returned bytes together with an error")
		c.Ev("refused")
	}
	if x := f.Changed(); x != "" {
		c.Fail("modified", "UnmarshalCipher modified its input: %s", x)
	}
	c.Distinct(der, o)
}

func c16Mutate(c *mon.Case) { c16MutateN(c, cipherLens[c.IntN(len(cipherLens))]) }

// c16LargeMutate: encodings whose lengths take two to four bytes.
func c16LargeMutate(c *mon.Case) {
	c16MutateN(c, []int{400, 4096, 30000, 65300, 65384, 65400, 65535, 65536, 65537, 70000, 100000, 1 << 17, 1 << 18, 1<<20 + 1, 60000, 65533}[c.Idx%16]+c.IntN(3))
	c.Ev("large-mutations")
}

func c16MutateN(c *mon.Case, n int) {
	o, _ := anyOrder(c)
	raw := anyRaw(c, n)
	c1, c2, c3 := ref.Split(raw, o)
	x, y := new(big.Int).SetBytes(c1[1:33]), new(big.Int).SetBytes(c1[33:])
	oct := func(a, b []byte) []byte {
		if o {
			return append(ref.TLV(4, a), ref.TLV(4, b)...)
		}
		return append(ref.TLV(4, b), ref.TLV(4, a)...)
	}
	body := func(xi, yi []byte, a, b []byte, extra ...byte) []byte {
		return ref.TLV(0x30, xi, yi, oct(a, b), extra)
	}
	dx, dy := ref.DERInt(x), ref.DERInt(y)
	good := body(dx, dy, c3, c2)
	padded := func(v *big.Int, n int) []byte { return ref.TLV(2, make([]byte, n), ref.IntBytes(v)) }
	big33 := new(big.Int).Lsh(bigOne, uint(256+c.IntN(30)))
	list := [][]byte{
		good,
		append(clone(good), 0), append(clone(good), c.Bytes(1+c.IntN(5))...),
		body(dx, dy, c3, c2, 5, 0), body(dx, dy, c3, c2, 0), body(dx, dy, c3, c2, ref.TLV(4, c2)...),
		body(padded(x, 1), dy, c3, c2), body(dx, padded(y, 1), c3, c2), body(padded(x, 2), dy, c3, c2),
		body(ref.DERInt(new(big.Int).Neg(x)), dy, c3, c2), body(dx, ref.DERInt(new(big.Int).Neg(y)), c3, c2),
		body(ref.DERInt(num(-1)), dy, c3, c2), body(dx, ref.DERInt(num(-128)), c3, c2),
		body(ref.DERInt(big33), dy, c3, c2), body(dx, ref.DERInt(big33), c3, c2),
		body(ref.DERInt(new(big.Int).SetBytes(append([]byte{1}, c.Bytes(32)...))), dy, c3, c2),
		body(ref.DERInt(new(big.Int).SetBytes(append([]byte{1}, c.Bytes(100)...))), dy, c3, c2),
		body(ref.DERInt(sub(new(big.Int).Lsh(bigOne, 256), 1)), dy, c3, c2),
		body(ref.TLV(2), dy, c3, c2), body(dx, ref.TLV(2), c3, c2),
		body(dx, dy, c3[:31], c2), body(dx, dy, append(clone(c3), 0), c2), body(dx, dy, nil, c2), body(dx, dy, c3[:c.IntN(32)], c2),
		body(dx, dy, c.Bytes(33+c.IntN(40)), c2),
		body(dx, dy, c3, nil), body(dx, dy, c3, c3),
		ref.TLV(0x31, dx, dy, oct(c3, c2)), ref.TLV(0x30, dx, dy), ref.TLV(0x30, dx), ref.TLV(0x30), {}, nil,
		ref.TLV(0x30, dx, dy, ref.TLV(4, c3)), ref.TLV(0x30, dx, dy, ref.TLV(3, c3), ref.TLV(4, c2)),
		ref.TLV(0x30, dx, dy, ref.TLV(0x24, ref.TLV(4, c3)), ref.TLV(4, c2)),
		ref.TLV(0x30, dx, dy, ref.TLV(4, c3), ref.TLV(0x24, ref.TLV(4, c2))),
		ref.TLV(0x30, oct(c3, c2), dx, dy), ref.TLV(0x30, ref.TLV(0x30, dx, dy, oct(c3, c2))),
		ref.TLV(0x30, ref.TLV(0x0a, ref.IntBytes(x)), dy, oct(c3, c2)), ref.TLV(0x30, ref.TLV(4, ref.B32(x)), ref.TLV(4, ref.B32(y)), oct(c3, c2)),
		append(append([]byte{0x30, 0x80}, append(append(clone(dx), dy...), oct(c3, c2)...)...), 0, 0),
		raw,
	}
	// lengths in non-minimal long form
	in := append(append(clone(dx), dy...), oct(c3, c2)...)
	list = append(list, append([]byte{0x30, 0x84, 0, byte(len(in) >> 16), byte(len(in) >> 8), byte(len(in))}, in...))
	if len(in) < 1<<16 {
		list = append(list, append([]byte{0x30, 0x83, 0, byte(len(in) >> 8), byte(len(in))}, in...))
	}
	if len(in) < 256 {
		list = append(list, append([]byte{0x30, 0x82, 0, byte(len(in))}, in...))
	}
	o2s := [][]byte{append([]byte{4, 0x84, 0, byte(len(c2) >> 16), byte(len(c2) >> 8), byte(len(c2))}, c2...)}
	if len(c2) < 1<<16 {
		o2s = append(o2s, append([]byte{4, 0x83, 0, byte(len(c2) >> 8), byte(len(c2))}, c2...))
	}
	if len(c2) < 256 {
		o2s = append(o2s, append([]byte{4, 0x82, 0, byte(len(c2))}, c2...))
	}
	if len(c2) < 128 {
		o2s = append(o2s, append([]byte{4, 0x81, byte(len(c2))}, c2...))
	}
	for _, o2 := range o2s {
		o3 := ref.TLV(4, c3)
		if o {
			list = append(list, ref.TLV(0x30, dx, dy, o3, o2))
		} else {
			list = append(list, ref.TLV(0x30, dx, dy, o2, o3))
		}
	}
	if b := x.Bytes(); len(b) > 0 && b[0]&0x80 != 0 {
		list = append(list, body(ref.TLV(2, b), dy, c3, c2))
	}
	for i := 0; i < 6; i++ {
		z := clone(good)
		z[c.IntN(len(z))] ^= 1 << uint(c.IntN(8))
		list = append(list, z)
		j := c.IntN(len(good))
		list = append(list, append(clone(good[:j]), good[j+1:]...), good[:j], append(clone(good[:j]), append([]byte{byte(c.Uint32())}, good[j:]...)...))
	}
	for _, b := range list {
		c16Decode(c, b, o)
		if c.IntN(4) == 0 {
			c16Decode(c, b, !o)
		}
	}
	c.Sample("mutations of %s", hexs(good))
}

func c16Bits(c *mon.Case) {
	o, _ := anyOrder(c)
	raw := anyRaw(c, cipherLens[c.IntN(len(cipherLens))])
	good, _ := ref.CipherDER(raw, o)
	for i := 0; i < len(good)*8; i++ {
		z := clone(good)
		z[i/8] ^= 1 << uint(i%8)
		c16Decode(c, z, o)
	}
	for i := range good {
		c16Decode(c, good[:i], o)
	}
}

func c16Random(c *mon.Case) {
	for i := 0; i < 10; i++ {
		o, _ := anyOrder(c)
		b := c.Bytes(c.IntN(160))
		if len(b) > 4 {
			b[0] = 0x30
			b[1] = byte(len(b) - 2)
			b[2] = 2
			b[3] = byte(c.IntN(40))
			if len(b)-2 > 127 {
				b[1] = 0x81
				b[2] = byte(len(b) - 3)
				b[3] = 2
				b[4] = byte(c.IntN(40))
			}
		}
		c16Decode(c, b, o)
	}
}
