package props

import (
	"bytes"
	"crypto/elliptic"
	"encoding/base64"
	"encoding/hex"
	"io"
	"math/big"

	"github.com/ZZMarquis/gm/sm2"
	"github.com/ZZMarquis/gm/util"

	"vharness/mon"
	"vharness/ref"
)

func init() {
	register(&mon.Prop{
		ID:   "C06",
		Rule: "cases compare parameters, membership, scalar multiplication, addition and doubling with independent arithmetic on random and edge scalars (0, 1, n-1, n, n+1, 2n, powers of two, sparse bytes, zero-padded, over-long) and related point pairs, also with operands whose big.Int objects and scalar buffers held other values before; distinct by operation and operands",
		Workloads: []mon.Workload{
			{Name: "params", Quick: 1, Thorough: 1, Run: c06Params},
			{Name: "scalarmult", Quick: 7500, Thorough: 60000, Run: c06Mult},
			{Name: "add", Quick: 9000, Thorough: 72000, Run: c06Add},
			{Name: "reused", Quick: 1200, Thorough: 12000, Run: c06Reused},
			{Name: "oncurve", Quick: 9000, Thorough: 72000, Run: c06On},
		},
		Need: map[string]int64{"mult": 1000, "add": 1500, "membership": 3000, "reused-operands": 5000},
	})
	register(&mon.Prop{
		ID:   "C07",
		Rule: "cases run key generation on deterministic readers: uniform, short-reading, failing at every byte, and scripted so that the first candidates are 0, 1, n-2, n-1, n, 2^256-1; each consumed byte is also flipped once; distinct by reader content and fault position",
		Workloads: []mon.Workload{
			{Name: "uniform", Quick: 4800, Thorough: 38400, Run: c07Uniform},
			{Name: "edges", Quick: 3600, Thorough: 28800, Run: c07Edges},
			{Name: "faults", Quick: 1680, Thorough: 13440, Run: c07Faults},
			{Name: "influence", Quick: 192, Thorough: 1536, Run: c07Influence},
			{Name: "distinct", Quick: 96, Thorough: 768, Run: c07Distinct},
			{Name: "derive", Quick: 4800, Thorough: 38400, Run: c07Derive},
		},
		Need: map[string]int64{"keys": 1000, "source-failed": 60, "edge-candidate": 200},
	})
	register(&mon.Prop{
		ID:   "C08",
		Rule: "cases serialise and parse keys of every edge kind (leading-zero coordinates searched for), and parse byte strings of lengths 0..130, other encodings of valid keys (leading byte, compressed, DER, hexadecimal, base64), out-of-range scalars, off-curve and unreduced coordinates; distinct by key or byte string",
		Workloads: []mon.Workload{
			{Name: "roundtrip", Quick: 36000, Thorough: 288000, Run: c08Round},
			{Name: "leading-zeros", Quick: 7200, Thorough: 57600, Run: c08LZ},
			{Name: "reused", Quick: 1000, Thorough: 10000, Run: c08Reused},
			{Name: "bad-private", Quick: 18000, Thorough: 144000, Run: c08BadPriv},
			{Name: "bad-public", Quick: 36000, Thorough: 288000, Run: c08BadPub},
		},
		Need: map[string]int64{"roundtrip": 600, "refused": 3000, "leading-zero-coordinate": 200, "reused-key-object": 1000},
	})
}

func c06Params(c *mon.Case) {
	cv := sm2.GetSm2P256V1()
	type nv struct {
		name      string
		got, want *big.Int
	}
	for _, x := range []nv{{"P", cv.P, ref.SM2.P}, {"A", cv.A, ref.SM2.A}, {"B", cv.B, ref.SM2.B}, {"N", cv.N, ref.SM2.N},
		{"Gx", cv.Gx, ref.SM2.G.X}, {"Gy", cv.Gy, ref.SM2.G.Y},
		{"Params().P", cv.Params().P, ref.SM2.P}, {"Params().N", cv.Params().N, ref.SM2.N}, {"Params().B", cv.Params().B, ref.SM2.B},
		{"Params().Gx", cv.Params().Gx, ref.SM2.G.X}, {"Params().Gy", cv.Params().Gy, ref.SM2.G.Y}} {
		if x.got == nil || x.got.Cmp(x.want) != 0 {
			c.Fail("param/"+x.name, "curve parameter %s is %x, the standard says %x", x.name, x.got, x.want)
		}
		c.Distinct(x.name)
	}
	c.Check(cv.BitSize == 256 && cv.Params().BitSize == 256, "param/bitsize", "BitSize %d", cv.BitSize)
	c.Sample("P=%x N=%x", cv.P, cv.N)
}

// scalarBytes returns a scalar in byte form together with its value.
func scalarBytes(c *mon.Case) ([]byte, *big.Int) {
	var k *big.Int
	switch c.IntN(14) {
	case 12: // a few non-zero bytes, as seen by windowed and comb methods
		b := make([]byte, 32)
		for j := 1 + c.IntN(3); j > 0; j-- {
			b[c.IntN(32)] = []byte{1, 2, 15, 16, 0x80, 0xf0, 0xff, byte(c.IntN(256))}[c.IntN(8)]
		}
		k = new(big.Int).SetBytes(b)
	case 13: // every bit at one distance
		step := []int{2, 4, 8, 16, 32, 64, 128}[c.IntN(7)]
		k = new(big.Int)
		for j := c.IntN(step); j < 256; j += step {
			k.SetBit(k, j, 1)
		}
	case 0:
		k = num(int64(c.IntN(20)))
	case 1:
		k = new(big.Int).Add(bigN, num(int64(c.IntN(9)-4)))
	case 2:
		k = new(big.Int).Lsh(bigOne, uint(c.IntN(256)))
	case 3:
		k = sub(new(big.Int).Lsh(bigOne, uint(1+c.IntN(256))), 1)
	case 4:
		k = new(big.Int).Mul(bigN, num(2))
		k.Add(k, num(int64(c.IntN(5)-2)))
	case 5:
		k = new(big.Int).SetBytes(c.Bytes(33 + c.IntN(20)))
	case 6:
		k = new(big.Int).SetBytes(c.Msg(32))
	case 7:
		k = new(big.Int).SetBytes(c.Bytes(1 + c.IntN(32)))
	case 8:
		k = new(big.Int).Rsh(bigN, uint(c.IntN(4)))
	default:
		k = new(big.Int).SetBytes(c.Bytes(32))
	}
	b := k.Bytes()
	if c.IntN(3) == 0 {
		b = append(make([]byte, c.IntN(5)), b...)
	}
	if c.IntN(4) == 0 && len(b) < 32 {
		b = ref.B32(k)
	}
	return b, k
}

// gmPt turns a library result into a reference point.
func gmPt(c *mon.Case, key string, x, y *big.Int) ref.Pt {
	if x == nil || y == nil {
		c.Fail(key+"/nil", "the library returned a nil coordinate")
	}
	if x.Sign() == 0 && y.Sign() == 0 {
		return ref.Pt{Inf: true}
	}
	return ref.Pt{X: x, Y: y}
}

func c06Mult(c *mon.Case) {
	cv := sm2.GetSm2P256V1()
	for i := 0; i < 2; i++ {
		b, k := scalarBytes(c)
		c.Note("scalar", b)
		fb := c.Freeze(b)
		x, y := cv.ScalarBaseMult(fb.B)
		km := new(big.Int).Mod(k, bigN)
		if got, want := gmPt(c, "base", x, y), ref.SM2.MulG(km); !ref.SM2.Eq(got, want) {
			c.Fail("basemult", "base multiplication by %x gives %v, want %v", k, got, want)
		}
		p := ref.SM2.MulG(scalar(c))
		if c.IntN(4) == 0 {
			p = specialPoint(c)
		}
		px, py := cp(p.X), cp(p.Y)
		c.Note("point", elliptic.Marshal(cv, px, py))
		x, y = cv.ScalarMult(px, py, fb.B)
		if got, want := gmPt(c, "mult", x, y), ref.SM2.Mul(p, km); !ref.SM2.Eq(got, want) {
			c.Fail("scalarmult", "multiplication by %x gives %v, want %v", k, got, want)
		}
		c.Check(px.Cmp(p.X) == 0 && py.Cmp(p.Y) == 0, "mult-modified", "scalar multiplication changed its operand")
		if d := fb.Changed(); d != "" {
			c.Fail("scalar-modified", "scalar multiplication modified the scalar: %s", d)
		}
		c.EvN("mult", 2)
		c.Distinct(b, px)
		c.Sample("k=%x", k)
	}
}

// c06Reused keeps the same big.Int objects and scalar buffer as operands of a
// sequence of operations and changes their values in between.
func c06Reused(c *mon.Case) {
	cv := sm2.GetSm2P256V1()
	x1, y1, x2, y2 := new(big.Int), new(big.Int), new(big.Int), new(big.Int)
	k := c.Bytes(32)
	var p, q ref.Pt
	set := func() {
		p, q = ref.SM2.MulG(scalar(c)), ref.SM2.MulG(scalar(c))
		switch c.IntN(4) {
		case 0:
			q = ref.Pt{X: p.X, Y: p.Y}
		case 1:
			q = ref.SM2.Neg(p)
		}
		x1.Set(p.X)
		y1.Set(p.Y)
		x2.Set(q.X)
		y2.Set(q.Y)
	}
	set()
	for i := 0; i < 6; i++ {
		switch c.IntN(4) {
		case 0, 1:
			set()
		case 2:
			c.Fill(k)
		case 3:
			k[31]++
		}
		km := new(big.Int).Mod(new(big.Int).SetBytes(k), bigN)
		c.Note("scalar", k)
		c.Note("p", p)
		c.Note("q", q)
		var got, want ref.Pt
		op := ""
		switch c.IntN(4) {
		case 0, 1:
			x, y := cv.ScalarMult(x1, y1, k)
			op, got, want = "ScalarMult", gmPt(c, "mult", x, y), ref.SM2.Mul(p, km)
		case 2:
			x, y := cv.Add(x1, y1, x2, y2)
			op, got, want = "Add", gmPt(c, "add", x, y), ref.SM2.Add(p, q)
		case 3:
			x, y := cv.Double(x1, y1)
			op, got, want = "Double", gmPt(c, "double", x, y), ref.SM2.Add(p, p)
		}
		if !ref.SM2.Eq(got, want) {
			c.Fail("reused/"+op, "%s on operands that held other values before gives %v, want %v", op, got, want)
		}
		if c.IntN(2) == 0 { // results belong to the caller
			got.X, got.Y = ref.SM2.G.X, ref.SM2.G.Y
		} else if !got.Inf {
			got.X.SetInt64(1)
			got.Y.SetInt64(2)
		}
		off := c.IntN(2) == 0
		if off {
			y1.Add(y1, bigOne)
		}
		c.Check(cv.IsOnCurve(x1, y1) == !off, "reused/on", "IsOnCurve of reused coordinates says %v", off)
		if off {
			y1.Sub(y1, bigOne)
		}
		c.Ev("reused-operands")
		c.Distinct(op, p, k)
	}
}

func c06Add(c *mon.Case) {
	cv := sm2.GetSm2P256V1()
	for i := 0; i < 4; i++ {
		p := ref.SM2.MulG(scalar(c))
		q := ref.SM2.MulG(scalar(c))
		if c.IntN(4) == 0 {
			p = specialPoint(c)
		}
		if c.IntN(6) == 0 {
			q = specialPoint(c)
		}
		switch c.IntN(8) {
		case 0:
			q = ref.Pt{X: p.X, Y: p.Y}
		case 1:
			q = ref.SM2.Neg(p)
		case 2:
			q = ref.Pt{Inf: true}
		case 3:
			p = ref.Pt{Inf: true}
		case 4:
			p, q = ref.Pt{Inf: true}, ref.Pt{Inf: true}
		case 5:
			q = ref.SM2.Add(p, p)
		case 6:
			q = ref.SM2.G
		}
		a, b := gmPub(p), gmPub(q)
		ax, ay, bx, by := cp(a.X), cp(a.Y), cp(b.X), cp(b.Y)
		x, y := cv.Add(a.X, a.Y, b.X, b.Y)
		if got, want := gmPt(c, "add", x, y), ref.SM2.Add(p, q); !ref.SM2.Eq(got, want) {
			c.Fail("add", "%v + %v gives %v, want %v", p, q, got, want)
		}
		x2, y2 := cv.Add(b.X, b.Y, a.X, a.Y)
		c.Check(x2.Cmp(x) == 0 && y2.Cmp(y) == 0, "commute", "addition does not commute on %v, %v", p, q)
		x, y = cv.Double(a.X, a.Y)
		if got, want := gmPt(c, "double", x, y), ref.SM2.Add(p, p); !ref.SM2.Eq(got, want) {
			c.Fail("double", "2*%v gives %v, want %v", p, got, want)
		}
		c.Check(ax.Cmp(a.X) == 0 && ay.Cmp(a.Y) == 0 && bx.Cmp(b.X) == 0 && by.Cmp(b.Y) == 0, "add-modified", "addition changed an operand")
		c.Check(util.IsEcPointInfinity(a.X, a.Y) == p.Inf, "infinity", "IsEcPointInfinity(%v) = %v", p, !p.Inf)
		c.EvN("add", 2)
		c.Distinct(p, q)
	}
}

func c06On(c *mon.Case) {
	cv := sm2.GetSm2P256V1()
	for i := 0; i < 8; i++ {
		p := ref.SM2.MulG(scalar(c))
		if c.IntN(3) == 0 {
			p = specialPoint(c)
		}
		x, y := cp(p.X), cp(p.Y)
		switch c.IntN(11) {
		case 0:
		case 8:
			x.Neg(x)
		case 9:
			y.Neg(y)
		case 10:
			y.Sub(y, bigP)
		case 1:
			x = below(c, bigP)
		case 2:
			y.Add(y, num(int64(c.IntN(3)+1)))
		case 3:
			x.Add(x, bigP)
		case 4:
			y.Add(y, bigP)
		case 5:
			y.Sub(bigP, y)
		case 6:
			y.SetBit(y, c.IntN(256), y.Bit(c.IntN(256))^1)
		case 7:
			x, y = below(c, bigP), below(c, bigP)
		}
		want := ref.SM2.On(ref.Pt{X: x, Y: y})
		if got := cv.IsOnCurve(x, y); got != want {
			c.Fail("oncurve", "IsOnCurve(%x, %x) = %v, want %v", x, y, got, want)
		}
		c.Ev("membership")
		c.Distinct(x, y)
	}
	c.Check(!cv.IsOnCurve(new(big.Int), new(big.Int)), "oncurve-zero", "(0,0) is on the curve")
}

// checkPair verifies a generated pair.
func checkPair(c *mon.Case, key string, priv *sm2.PrivateKey, pub *sm2.PublicKey) {
	if priv == nil || pub == nil || priv.D == nil || pub.X == nil || pub.Y == nil {
		c.Fail(key+"/nil", "key generation returned a nil key without an error")
	}
	if priv.D.Sign() <= 0 || priv.D.Cmp(sub(bigN, 2)) > 0 {
		c.Fail(key+"/range", "private key %x is outside [1, n-2]", priv.D)
	}
	want := ref.SM2.MulG(priv.D)
	if !ref.SM2.Eq(ptOf(pub), want) {
		c.Fail(key+"/pub", "public key %v does not match private key %x", ptOf(pub), priv.D)
	}
	for _, cv := range []sm2.P256V1Curve{priv.Curve, pub.Curve} {
		c.Check(cv.CurveParams != nil && cv.N.Cmp(bigN) == 0 && cv.P.Cmp(bigP) == 0 && cv.A != nil, key+"/curve", "the key carries another curve")
	}
	c.Ev("keys")
}

func generate(c *mon.Case, r io.Reader) (priv *sm2.PrivateKey, pub *sm2.PublicKey, err error) {
	c.NoPanic("GenerateKey", func() { priv, pub, err = sm2.GenerateKey(r) })
	return
}

func c07Uniform(c *mon.Case) {
	r := c.Stream("a")
	if c.IntN(2) == 0 {
		r.MaxRead = 1 + c.IntN(31)
	}
	priv, pub, err := generate(c, r)
	c.Check(err == nil, "error", "key generation failed on a working source: %v", err)
	checkPair(c, "uniform", priv, pub)
	c.Check(r.Served >= 32, "entropy", "a key was made from only %d random bytes", r.Served)
	// the same bytes give the same key, however they are cut into reads
	r2 := c.Stream("a")
	p2, _, err := generate(c, r2)
	c.Check(err == nil && p2.D.Cmp(priv.D) == 0, "determined", "the same source bytes gave another key")
	c.Distinct(priv.D)
	c.Sample("d=%x served=%d", priv.D, r.Served)
}

// c07Edges scripts the first candidates. Both plain big-endian candidates and
// the form with the standard library's 0x42 tweak are served.
func c07Edges(c *mon.Case) {
	r := c.Stream("a")
	vals := []*big.Int{num(0), num(1), num(2), sub(bigN, 3), sub(bigN, 2), sub(bigN, 1), bigN, add(bigN, 1), sub(new(big.Int).Lsh(bigOne, 256), 1), sub(new(big.Int).Lsh(bigOne, 256), 2)}
	for i := 0; i < 1+c.IntN(3); i++ {
		b := ref.B32(vals[c.IntN(len(vals))])
		if c.IntN(3) != 0 {
			b[1] ^= 0x42
		}
		r.Script = append(r.Script, b...)
	}
	if c.IntN(3) == 0 {
		r.MaxRead = 1 + c.IntN(40)
	}
	c.Note("script", r.Script)
	c.Distinct(r.Script)
	priv, pub, err := generate(c, r)
	c.Check(err == nil, "error", "key generation failed on a working source: %v", err)
	checkPair(c, "edges", priv, pub)
	c.Ev("edge-candidate")
}

// c07Faults fails the source after idx bytes.
func c07Faults(c *mon.Case) {
	r := c.Stream("a")
	n := c.Idx % 70
	r.FailAt = n
	if n == 0 {
		r.FailAt = -1
	}
	if c.IntN(2) == 0 {
		r.MaxRead = 1 + c.IntN(16)
	}
	r.Once = c.IntN(2) == 0    // the source may work again afterwards
	if c.Idx >= 70 && n < 32 { // an edge candidate first, then the failure
		b := ref.B32(sub(bigN, 1))
		b[1] ^= 0x42
		r.Script = b
		r.FailAt = 32 + n
	}
	priv, pub, err := generate(c, r)
	c.Note("failAt", r.FailAt)
	if r.Failed > 0 {
		c.Check(err != nil, "masked", "the source failed after %d bytes but key generation reported success", r.Served)
		c.Check(priv == nil && pub == nil, "key-with-error", "a key was returned together with an error")
		c.Ev("source-failed")
	} else {
		c.Check(err == nil, "error", "key generation failed on a working source: %v", err)
		checkPair(c, "faults", priv, pub)
		c.Check(r.Served >= 32, "entropy", "a key was made from only %d random bytes", r.Served)
	}
	c.Distinct(r.FailAt, r.MaxRead, len(r.Script))
	c.Sample("failAt=%d err=%v", r.FailAt, err)
}

// c07Influence flips one bit in every consumed byte.
func c07Influence(c *mon.Case) {
	r := c.Stream("a")
	r.Record = true
	priv, _, err := generate(c, r)
	c.Check(err == nil, "error", "key generation failed: %v", err)
	log := clone(r.Log)
	n := len(log)
	if n > 64 {
		n = 64
	}
	c.Check(n >= 32, "entropy", "a key was made from only %d random bytes", n)
	for i := 0; i < n; i++ {
		r2 := c.Stream("b")
		r2.Script = clone(log)
		r2.Script[i] ^= 1 << uint(c.IntN(8))
		p2, _, err := generate(c, r2)
		c.Check(err == nil, "error", "key generation failed: %v", err)
		if p2.D.Cmp(priv.D) == 0 {
			c.Fail("ignored-byte", "changing random byte %d of %d does not change the key", i, n)
		}
		c.Ev("influence")
	}
	c.Distinct(log)
}

func c07Distinct(c *mon.Case) {
	seen := map[string]bool{}
	r := c.Stream("a")
	var and, or = new(big.Int).Set(bigN), new(big.Int)
	and.SetBit(new(big.Int), 256, 1)
	and.Sub(and, bigOne)
	const n = 60
	for i := 0; i < n; i++ {
		priv, pub, err := generate(c, r)
		c.Check(err == nil, "error", "key generation failed: %v", err)
		checkPair(c, "distinct", priv, pub)
		if seen[priv.D.String()] {
			c.Fail("repeat", "the same key was generated twice")
		}
		seen[priv.D.String()] = true
		and.And(and, priv.D)
		or.Or(or, priv.D)
		c.Distinct(priv.D)
	}
	for i := 0; i < 256; i++ {
		if and.Bit(i) == 1 || or.Bit(i) == 0 {
			c.Fail("stuck-bit", "bit %d of the private key was the same in %d keys", i, n)
		}
	}
}

func c07Derive(c *mon.Case) {
	d, kind := anyKey(c)
	c.Note("d", d)
	priv := gmPriv(d)
	pub := sm2.CalculatePubKey(priv)
	checkPair(c, "derive", priv, pub)
	c.Check(priv.D.Cmp(d) == 0, "modified", "deriving the public key changed the private key")
	c.Distinct(d)
	c.Sample("%s d=%x", kind, d)
}

func c08One(c *mon.Case, d *big.Int, kind string) {
	c.Note("d", d)
	p := ref.SM2.MulG(d)
	priv, pub := slotPriv(c, "priv", d), slotPub(c, "pub", p)
	raw := priv.GetRawBytes()
	same(c, "private-bytes", raw, ref.B32(d), "private key bytes (%s)", kind)
	pb := pub.GetRawBytes()
	want := append(ref.B32(p.X), ref.B32(p.Y)...)
	same(c, "public-bytes", pb, want, "public key bytes (%s)", kind)
	ub := pub.GetUnCompressBytes()
	same(c, "uncompressed-bytes", ub, append([]byte{4}, want...), "uncompressed public key bytes (%s)", kind)
	f := c.Freeze(raw)
	p2, err := sm2.RawBytesToPrivateKey(f.B)
	if err != nil || p2 == nil || p2.D.Cmp(d) != 0 {
		c.Fail("private-parse", "private key %x does not parse back: %v", d, err)
	}
	fp := c.Freeze(pb)
	q2, err := sm2.RawBytesToPublicKey(fp.B)
	if err != nil || q2 == nil || q2.X.Cmp(p.X) != 0 || q2.Y.Cmp(p.Y) != 0 {
		c.Fail("public-parse", "public key %x does not parse back: %v", pb, err)
	}
	for i, fr := range []*mon.Frozen{f, fp} {
		if s := fr.Changed(); s != "" {
			c.Fail("parse-modified", "parsing modified its input: %s", s)
		}
		for j := range fr.B {
			fr.B[j] ^= 0x77
		}
		_ = i
	}
	for j := range pb {
		pb[j] ^= 0x55
	}
	for j := range ub {
		ub[j] ^= 0x55
	}
	for j := range raw {
		raw[j] ^= 0x55
	}
	// the parsed keys are usable, carry the curve, and share nothing with the bytes
	same(c, "private-again", p2.GetRawBytes(), ref.B32(d), "private key bytes after the buffers were overwritten")
	same(c, "public-again", q2.GetRawBytes(), want, "public key bytes after the buffers were overwritten")
	same(c, "private-orig", priv.GetRawBytes(), ref.B32(d), "private key bytes after the buffers were overwritten")
	c.Check(p2.Curve.CurveParams != nil && q2.Curve.CurveParams != nil && p2.Curve.N.Cmp(bigN) == 0 && q2.Curve.N.Cmp(bigN) == 0, "parsed-curve", "a parsed key carries no curve")
	for j, x := range [][]byte{pub.GetRawBytes(), pub.GetUnCompressBytes(), priv.GetRawBytes()} {
		same(c, "bytes-again", x, [][]byte{want, append([]byte{4}, want...), ref.B32(d)}[j], "key bytes after an earlier result was overwritten")
		for k := range x {
			x[k] = 0x33
		}
	}
	if p.X.BitLen() <= 248 || p.Y.BitLen() <= 248 || d.BitLen() <= 248 {
		c.Ev("leading-zero-coordinate")
	}
	c.Ev("roundtrip")
	c.Distinct(d)
}

func c08Round(c *mon.Case) {
	d, kind := anyKey(c)
	c08One(c, d, kind)
	c.Sample("%s d=%x", kind, d)
}

// c08Reused serialises with the same structures, holding another key each time.
func c08Reused(c *mon.Case) {
	for i := 0; i < 5; i++ {
		d, kind := anyKey(c)
		c08One(c, d, kind)
	}
}

func c08LZ(c *mon.Case) {
	kind := []string{"lzx", "lzy", "short"}[c.Idx%3]
	c08One(c, keyOf(c, kind), kind)
}

func refusePriv(c *mon.Case, b []byte, why string) {
	c.Note("input", b)
	var p *sm2.PrivateKey
	var err error
	c.NoPanic("RawBytesToPrivateKey", func() { p, err = sm2.RawBytesToPrivateKey(b) })
	if err == nil {
		c.Fail("accepted-private", "RawBytesToPrivateKey accepted %s (%x)", why, b)
	}
	c.Check(p == nil, "key-with-error", "a key was returned together with an error")
	c.Ev("refused")
	c.Distinct(b)
}

func c08BadPriv(c *mon.Case) {
	if c.Idx < 131 {
		if c.Idx != 32 {
			b := c.Bytes(c.Idx)
			refusePriv(c, b, "a wrong length")
			if c.Idx == 64 {
				d := ref.B32(keyOf(c, "rand"))
				refusePriv(c, []byte(hex.EncodeToString(d)), "a hexadecimal key")
				refusePriv(c, append(clone(d), d...), "a key twice")
				refusePriv(c, append([]byte{4, 32}, d...), "an OCTET STRING")
				refusePriv(c, append([]byte{2, 32}, d...), "an INTEGER")
				refusePriv(c, append([]byte{0}, d...), "a padded key")
				refusePriv(c, d[1:], "a cut key")
				s := keyOf(c, "veryshort")
				refusePriv(c, s.Bytes(), "a short key without its zeros")
			}
			if c.Idx > 32 { // zero-padded valid key: still the wrong length
				copy(b, make([]byte, c.Idx-32))
				refusePriv(c, b, "a wrong length")
			}
		}
		return
	}
	vals := []*big.Int{num(0), sub(bigN, 1), bigN, add(bigN, 1), sub(new(big.Int).Lsh(bigOne, 256), 1), new(big.Int).Add(bigN, below(c, new(big.Int).Sub(new(big.Int).Lsh(bigOne, 256), bigN)))}
	for _, v := range vals {
		refusePriv(c, ref.B32(v), "a scalar outside [1, n-2]")
	}
	for _, v := range []*big.Int{num(1), num(2), sub(bigN, 2), sub(bigN, 3), keyOf(c, "rand")} {
		p, err := sm2.RawBytesToPrivateKey(ref.B32(v))
		if err != nil || p.D.Cmp(v) != 0 {
			c.Fail("refused-private", "RawBytesToPrivateKey refused the valid scalar %x: %v", v, err)
		}
		c.Distinct(v)
	}
}

func refusePub(c *mon.Case, b []byte, why string) {
	c.Note("input", b)
	var p *sm2.PublicKey
	var err error
	c.NoPanic("RawBytesToPublicKey", func() { p, err = sm2.RawBytesToPublicKey(b) })
	if err == nil {
		c.Fail("accepted-public", "RawBytesToPublicKey accepted %s (%x)", why, b)
	}
	c.Check(p == nil, "key-with-error", "a key was returned together with an error")
	c.Ev("refused")
	c.Distinct(b)
}

// smallX returns a curve point with x below 2^256-p, so that x+p fits 32 bytes.
func smallX(c *mon.Case) ref.Pt {
	for {
		x := below(c, new(big.Int).Lsh(bigOne, 200))
		if p, ok := ref.SM2.Lift(x, c.IntN(2) == 0); ok {
			return p
		}
	}
}

func c08BadPub(c *mon.Case) {
	if c.Idx < 140 {
		if c.Idx == 0 {
			for i := 0; i < 4; i++ { // other forms of a valid key
				p := ref.SM2.MulG(scalar(c))
				x, y := ref.B32(p.X), ref.B32(p.Y)
				raw := append(clone(x), y...)
				for lead := 0; lead < 256; lead++ {
					refusePub(c, append([]byte{byte(lead)}, raw...), "a key with a leading byte")
					refusePub(c, append([]byte{byte(lead)}, x...), "a compressed key")
				}
				bits := append([]byte{0x03, 66, 0, 4}, raw...)
				refusePub(c, bits, "a BIT STRING")
				refusePub(c, append([]byte{4, 64}, raw...), "an OCTET STRING")
				refusePub(c, append([]byte{0, 4}, raw...), "an unused-bits byte and the uncompressed form")
				spki := append([]byte{0x30, 0x59, 0x30, 0x13, 6, 7, 0x2a, 0x86, 0x48, 0xce, 0x3d, 2, 1, 6, 8, 0x2a, 0x81, 0x1c, 0xcf, 0x55, 1, 0x82, 0x2d}, bits...)
				refusePub(c, spki, "a SubjectPublicKeyInfo")
				refusePub(c, []byte(hex.EncodeToString(raw)), "a hexadecimal key")
				refusePub(c, []byte(base64.StdEncoding.EncodeToString(raw)), "a base64 key")
				refusePub(c, append(clone(raw), raw...), "a key twice")
			}
		}
		if c.Idx != 64 {
			b := c.Bytes(c.Idx)
			refusePub(c, b, "a wrong length")
			g := append(ref.B32(ref.SM2.G.X), ref.B32(ref.SM2.G.Y)...)
			if c.Idx < 64 {
				refusePub(c, g[:c.Idx], "a truncated key")
			} else {
				refusePub(c, append(make([]byte, c.Idx-64), g...), "an over-long key")
				refusePub(c, append(clone(g), make([]byte, c.Idx-64)...), "an over-long key")
			}
		}
		return
	}
	p := ref.SM2.MulG(scalar(c))
	x, y := ref.B32(p.X), ref.B32(p.Y)
	for i := 0; i < 8; i++ {
		b := append(clone(x), y...)
		b[c.IntN(64)] ^= 1 << uint(c.IntN(8))
		q := ref.Pt{X: new(big.Int).SetBytes(b[:32]), Y: new(big.Int).SetBytes(b[32:])}
		if ref.SM2.On(q) {
			continue
		}
		refusePub(c, b, "a point off the curve")
	}
	refusePub(c, append(clone(y), x...), "swapped coordinates")
	refusePub(c, make([]byte, 64), "zero coordinates")
	refusePub(c, bytes.Repeat([]byte{0xff}, 64), "all-ones coordinates")
	refusePub(c, append(ref.B32(add(p.Y, 0)), ref.B32(p.X)...), "swapped coordinates")
	s := smallX(c)
	refusePub(c, append(ref.B32(new(big.Int).Add(s.X, bigP)), ref.B32(s.Y)...), "an unreduced x coordinate")
	refusePub(c, append(ref.B32(below(c, bigP)), make([]byte, 32)...), "y = 0")
	for _, v := range []ref.Pt{s, specialPoint(c), specialPoint(c)} {
		raw := append(ref.B32(v.X), ref.B32(v.Y)...)
		c.Note("input", raw)
		ok, err := sm2.RawBytesToPublicKey(raw)
		if err != nil || ok == nil || ok.X.Cmp(v.X) != 0 || ok.Y.Cmp(v.Y) != 0 {
			c.Fail("refused-public", "RawBytesToPublicKey refused or changed a valid point: %v", err)
		}
		same(c, "special-raw", ok.GetRawBytes(), raw, "raw bytes of a special key")
		same(c, "special-uncompressed", ok.GetUnCompressBytes(), append([]byte{4}, raw...), "uncompressed bytes of a special key")
		c.Ev("special-key")
	}
}
