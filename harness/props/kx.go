package props

import (
	"bytes"
	"math"
	"math/big"
	"strconv"

	"github.com/ZZMarquis/gm/sm2"

	"vharness/mon"
	"vharness/ref"
)

func init() {
	register(&mon.Prop{
		ID:   "C17",
		Rule: "cases run both sides of the exchange for keys of every edge kind, ids of 0..8191 bytes, key lengths from 1 bit, points and shared points with leading zero bytes, peer points whose x has special bit patterns around the 127-bit reduction, and exceptional additions, and compare keys and tags with an independent implementation and with each other; distinct by all inputs",
		Workloads: []mon.Workload{
			{Name: "exchange", Quick: 4500, Thorough: 36000, Run: c17Exchange},
			{Name: "key-lengths", Quick: 560, Thorough: 3000, Run: c17Lengths},
			{Name: "large", Quick: 3, Thorough: 9, CPUSeconds: 400, Run: c17Large},
			{Name: "leading-zero", Quick: 480, Thorough: 3840, Run: c17LZ},
			{Name: "reused", Quick: 100, Thorough: 1000, Run: c17Reused},
			{Name: "special-points", Quick: 400, Thorough: 4000, Run: c17Special},
			{Name: "exceptional", Quick: 360, Thorough: 2880, Run: c17Exceptional},
		},
		Need: map[string]int64{"exchanges": 2000, "leading-zero-shared": 30, "exceptional": 100, "reused-key-object": 400, "special-point": 1000},
	})
	register(&mon.Prop{
		ID:   "C18",
		Rule: "cases run exchanges in which one party's view differs in one or several inputs, tags are altered in every bit and length, and points, ids and lengths are hostile, expecting an error and no key; distinct by the alteration and inputs",
		Workloads: []mon.Workload{
			{Name: "mismatch", Quick: 400, Thorough: 6000, Run: c18Mismatch},
			{Name: "tags", Quick: 64, Thorough: 800, Run: c18Tags, CPUSeconds: 200},
			{Name: "confirm", Quick: 400, Thorough: 10000, Run: c18Confirm},
			{Name: "hostile-points", Quick: 300, Thorough: 4000, Run: c18Points},
			{Name: "infinity", Quick: 200, Thorough: 2000, Run: c18Infinity},
			{Name: "limits", Quick: 200, Thorough: 2000, Run: c18Limits},
		},
		Need: map[string]int64{"refused": 10000, "tag-refused": 5000, "confirm-false": 10000, "control": 600},
	})
}

// kxParty is one side's secrets and identity.
type kxParty struct {
	d, r *big.Int
	id   []byte
}

func (p *kxParty) pub() ref.Pt { return ref.SM2.MulG(p.d) }
func (p *kxParty) eph() ref.Pt { return ref.SM2.MulG(p.r) }

// kxCall runs the library for one side.
func kxCall(c *mon.Case, initiator bool, bits int, tag []byte, self *kxParty, pub, eph ref.Pt, otherID []byte) (res *sm2.ExchangeResult, err error) {
	sd, sr := slotPriv(c, "self", self.d), slotPriv(c, "self-ephemeral", self.r)
	op, oe := slotPub(c, "other", pub), slotPub(c, "other-ephemeral", eph)
	fi, fo, ft := c.FreezeAs("self-id", self.id), c.FreezeAs("other-id", otherID), c.FreezeAs("tag", tag)
	c.NoPanic("CalculateKeyWithConfirmation", func() {
		res, err = sm2.CalculateKeyWithConfirmation(initiator, bits, ft.B, sd, sr, fi.B, op, oe, fo.B)
	})
	if x := fi.Changed() + fo.Changed() + ft.Changed(); x != "" {
		c.Fail("modified", "the key exchange modified its input: %s", x)
	}
	if sd.D.Cmp(self.d) != 0 || sr.D.Cmp(self.r) != 0 {
		c.Fail("key-modified", "the key exchange changed a private key")
	}
	if err != nil && res != nil {
		c.Fail("result-with-error", "the key exchange returned a result together with an error")
	}
	if err == nil && res == nil {
		c.Fail("no-result", "the key exchange returned neither a result nor an error")
	}
	return res, err
}

func noteKX(c *mon.Case, a, b *kxParty, bits int) {
	c.Note("dA", a.d)
	c.Note("rA", a.r)
	c.Note("idA", a.id)
	c.Note("dB", b.d)
	c.Note("rB", b.r)
	c.Note("idB", b.id)
	c.Note("bits", bits)
}

func sameKey(c *mon.Case, who string, got, want []byte, bits int) {
	if len(got) != (bits+7)/8 {
		c.Fail("key-length", "%s: a %d-bit key has %d bytes", who, bits, len(got))
	}
	g, w := clone(got), clone(want)
	if r := bits % 8; r != 0 { // the standard leaves the unused bits of the last byte open
		g[len(g)-1] &= byte(0xff << uint(8-r))
		w[len(w)-1] &= byte(0xff << uint(8-r))
	}
	same(c, "key", g, w, "%s: %d-bit key", who, bits)
}

func c17One(c *mon.Case, a, b *kxParty, bits int) {
	noteKX(c, a, b, bits)
	pa, ra, pb, rb := a.pub(), a.eph(), b.pub(), b.eph()
	want, werr := ref.SM2.KX(true, bits, a.d, a.r, a.id, pb, rb, b.id)
	wantB, werrB := ref.SM2.KX(false, bits, b.d, b.r, b.id, pa, ra, a.id)
	if werr != nil || werrB != nil {
		c.Ev("degenerate")
		return
	}
	if !bytes.Equal(want.Key, wantB.Key) || !bytes.Equal(want.S1, wantB.S1) {
		panic("the oracle's two sides disagree")
	}
	rr, err := kxCall(c, false, bits, nil, b, pa, ra, a.id)
	if err != nil {
		c.Fail("responder-error", "the responder failed: %v", err)
	}
	sameKey(c, "responder", rr.Key, want.Key, bits)
	same(c, "responder-S1", rr.S1, want.S1, "responder's S1")
	same(c, "responder-S2", rr.S2, want.S2, "responder's S2")
	ri, err := kxCall(c, true, bits, rr.S1, a, pb, rb, b.id)
	if err != nil {
		c.Fail("initiator-error", "the initiator refused an honest responder: %v", err)
	}
	sameKey(c, "initiator", ri.Key, want.Key, bits)
	same(c, "keys-differ", ri.Key, rr.Key, "initiator's key against the responder's")
	same(c, "initiator-S2", ri.S2, want.S2, "initiator's S2")
	if ri.S1 != nil {
		same(c, "initiator-S1", ri.S1, want.S1, "initiator's S1")
	}
	c.Check(sm2.ResponderConfirm(rr.S2, ri.S2), "confirm", "the responder does not confirm an honest initiator")
	if want.U.X.BitLen() <= 248 || want.U.Y.BitLen() <= 248 {
		c.Ev("leading-zero-shared")
	}
	c.Ev("exchanges")
	c.Distinct(a.d, a.r, a.id, b.d, b.r, b.id, bits)
	c.Sample("bits=%d ids %d and %d bytes key=%s", bits, len(a.id), len(b.id), hexs(ri.Key))
}

func anyParty(c *mon.Case) *kxParty {
	d, _ := anyKey(c)
	r, _ := anyKey(c)
	return &kxParty{d: d, r: r, id: anyID(c)}
}

func anyBits(c *mon.Case) int {
	switch c.IntN(6) {
	case 0:
		return 1 + c.IntN(300)
	case 1:
		return []int{1, 7, 8, 9, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1024, 2048, 8160, 8192}[c.IntN(17)]
	case 2:
		return 8 * (1 + c.IntN(400))
	case 3:
		return 1 + c.IntN(5000)
	}
	return 128
}

func c17Exchange(c *mon.Case) {
	a, b := anyParty(c), anyParty(c)
	switch c.IntN(12) {
	case 0:
		b.id = clone(a.id)
	case 1:
		b.d = cp(a.d)
	case 2:
		b.r = cp(a.r)
	case 3:
		a.r = cp(a.d)
	case 4:
		b.d, b.r, b.id = cp(a.d), cp(a.r), clone(a.id)
	}
	c17One(c, a, b, anyBits(c))
}

// c17Reused runs several exchanges with the same key structures and id
// memory, which hold another value each time. Some keep one of the keys.
func c17Reused(c *mon.Case) {
	a, b := anyParty(c), anyParty(c)
	for i := 0; i < 4; i++ {
		c17One(c, a, b, anyBits(c))
		a2, b2 := anyParty(c), anyParty(c)
		for _, x := range [][2]*kxParty{{a, a2}, {b, b2}} {
			if c.IntN(2) == 0 {
				x[0].d = x[1].d
			}
			if c.IntN(2) == 0 {
				x[0].r = x[1].r
			}
			if c.IntN(2) == 0 {
				x[0].id = c.Bytes(len(x[0].id))
			}
		}
	}
}

func c17Lengths(c *mon.Case) {
	bits := c.Idx + 1
	if c.Idx >= 520 {
		bits = []int{1000, 1023, 1024, 1025, 2040, 2047, 2048, 4096, 8159, 8160, 8161, 8192, 16384, 32767, 65280, 65535, 65536, 65537, 65544, 70000, 100001, 262144, 524288, 1 << 20, 1<<21 + 1, 1 << 22}[(c.Idx-520)%26]
	}
	a := &kxParty{keyOf(c, "rand"), keyOf(c, "rand"), []byte("A")}
	b := &kxParty{keyOf(c, "rand"), keyOf(c, "rand"), nil}
	c17One(c, a, b, bits)
}

// c17Large: keys of megabytes, whose block counter passes 2^16.
func c17Large(c *mon.Case) {
	bits := 8 * []int{65536*32 + 1 + c.IntN(70), 1<<20 + c.IntN(100), 1<<22 + c.IntN(100)}[c.Idx%3]
	c17One(c, anyParty(c), anyParty(c), bits-c.IntN(8))
	c.Ev("large")
}

// bar is the standard's 127-bit reduction.
func bar(x *big.Int) *big.Int {
	m := new(big.Int).Lsh(bigOne, 127)
	v := new(big.Int).Mod(x, m)
	return v.Add(v, m)
}

// kxT is tA for the party.
func kxT(p *kxParty) *big.Int {
	t := new(big.Int).Mul(bar(p.eph().X), p.r)
	t.Add(t, p.d)
	return t.Mod(t, bigN)
}

func okKey(d *big.Int) bool { return d.Sign() > 0 && d.Cmp(sub(bigN, 1)) < 0 }

// c17LZ makes static, ephemeral and shared points short.
func c17LZ(c *mon.Case) {
	a := &kxParty{keyOf(c, "rand"), keyOf(c, "rand"), []byte("ALICE")}
	b := &kxParty{keyOf(c, "rand"), keyOf(c, "rand"), []byte("BILL")}
	kinds := []string{"lzx", "lzy"}
	switch c.Idx % 4 {
	case 0:
		a.d, b.d = keyOf(c, kinds[c.IntN(2)]), keyOf(c, kinds[c.IntN(2)])
	case 1:
		a.r, b.r = keyOf(c, kinds[c.IntN(2)]), keyOf(c, kinds[c.IntN(2)])
	default:
		for {
			// U = uG with u = tA (dB + x2 rB)
			u := lzScalar(c, []string{"x", "y"}[c.IntN(2)])
			v := new(big.Int).Mul(u, new(big.Int).ModInverse(kxT(a), bigN))
			v.Sub(v, new(big.Int).Mul(bar(b.eph().X), b.r))
			v.Mod(v, bigN)
			if okKey(v) {
				b.d = v
				break
			}
		}
	}
	c17One(c, a, b, 128+8*c.IntN(40))
}

// specialPoint finds a curve point whose x has a chosen pattern. Nobody knows
// its discrete logarithm.
func specialPoint(c *mon.Case) ref.Pt {
	lsh := func(n uint) *big.Int { return new(big.Int).Lsh(bigOne, n) }
	var x *big.Int
	step := num(1)
	switch c.IntN(9) {
	case 0: // tiny
		x = num(int64(c.IntN(1000)))
	case 1: // below 2^127
		x = below(c, lsh(uint(1+c.IntN(127))))
	case 2: // exactly bit 127 set, and nothing above
		x = new(big.Int).Add(lsh(127), below(c, lsh(uint(1+c.IntN(127)))))
	case 3: // low 127 bits zero
		x = new(big.Int).Mul(below(c, lsh(128)), lsh(127))
		step = lsh(127)
	case 4: // low 127 bits one
		x = sub(new(big.Int).Mul(add(below(c, lsh(127)), 1), lsh(127)), 1)
		step = lsh(127)
	case 5: // just below p
		x = sub(bigP, int64(1+c.IntN(1000)))
		step = num(-1)
	case 6: // low 128 bits zero but small low part
		x = new(big.Int).Add(new(big.Int).Mul(below(c, lsh(127)), lsh(128)), num(int64(c.IntN(4))))
		step = lsh(128)
	case 7: // between n and p
		x = new(big.Int).Add(bigN, below(c, new(big.Int).Sub(bigP, bigN)))
	case 8: // short
		x = below(c, lsh(uint(8*(1+c.IntN(31)))))
	}
	for i := 0; i < 1000; i++ {
		if x.Sign() >= 0 && x.Cmp(bigP) < 0 {
			if p, ok := ref.SM2.Lift(x, c.IntN(2) == 0); ok {
				return p
			}
		} else {
			return ref.SM2.MulG(scalar(c))
		}
		x = new(big.Int).Add(x, step)
	}
	panic("no special point found")
}

// c17Special runs one side against a peer whose points have special values.
// Nobody can run the peer's side, but what this side must compute is defined.
func c17Special(c *mon.Case) {
	for i := 0; i < 3; i++ {
		a := anyParty(c)
		pub, eph := specialPoint(c), specialPoint(c)
		switch c.IntN(5) {
		case 0:
			pub = ref.SM2.MulG(scalar(c))
		case 1:
			eph = ref.SM2.MulG(scalar(c))
		case 2:
			pub = eph
		}
		id, bits := anyID(c), anyBits(c)
		noteKX(c, a, a, bits)
		c.Note("peerStatic", pub)
		c.Note("peerEphemeral", eph)
		c.Note("peerID", id)
		for _, initiator := range []bool{false, true} {
			want, werr := ref.SM2.KX(initiator, bits, a.d, a.r, a.id, pub, eph, id)
			if werr != nil {
				c.Ev("degenerate")
				continue
			}
			var tag []byte
			if initiator {
				tag = want.S1
			}
			got, err := kxCall(c, initiator, bits, tag, a, pub, eph, id)
			if err != nil {
				c.Fail("special-error", "the exchange (initiator %v) refused a peer on the curve: %v", initiator, err)
			}
			sameKey(c, "special", got.Key, want.Key, bits)
			if !initiator {
				same(c, "special-S1", got.S1, want.S1, "S1 for special peer points")
			}
			same(c, "special-S2", got.S2, want.S2, "S2 for special peer points")
			c.Ev("special-point")
			c.Distinct(a.d, a.r, pub, eph, id, bits, initiator)
		}
	}
}

// c17Exceptional makes the additions inside U doublings.
func c17Exceptional(c *mon.Case) {
	a := &kxParty{keyOf(c, "rand"), keyOf(c, "rand"), nil}
	b := &kxParty{keyOf(c, "rand"), keyOf(c, "rand"), []byte{0}}
	fix := func(p *kxParty, sign int64) {
		for {
			v := new(big.Int).Mul(bar(p.eph().X), p.r)
			v.Mul(v, num(sign)).Mod(v, bigN)
			if okKey(v) {
				p.d = v
				return
			}
			p.r = keyOf(c, "rand")
		}
	}
	switch c.Idx % 3 {
	case 0: // P_B = [x2]R_B
		fix(b, 1)
	case 1:
		fix(a, 1)
	case 2: // both
		fix(a, 1)
		fix(b, 1)
	}
	c17One(c, a, b, 128)
	c.Ev("exceptional")
}

func kxRefused(c *mon.Case, key string, res *sm2.ExchangeResult, err error, format string, a ...any) {
	if err == nil {
		c.Fail(key, "the key exchange succeeded (key %s) with "+format, append([]any{hexs(res.Key)}, a...)...)
	}
	c.Ev("refused")
}

// c18Mismatch: the initiator's view differs from the responder's.
func c18Mismatch(c *mon.Case) {
	a, b := anyParty(c), anyParty(c)
	if c.IntN(3) == 0 {
		b.id = clone(a.id)
	}
	bits := 1 + c.IntN(300)
	noteKX(c, a, b, bits)
	pa, ra, pb, rb := a.pub(), a.eph(), b.pub(), b.eph()
	want, err := ref.SM2.KX(true, bits, a.d, a.r, a.id, pb, rb, b.id)
	if err != nil {
		return
	}
	rr, err := kxCall(c, false, bits, nil, b, pa, ra, a.id)
	if err != nil || !bytes.Equal(rr.S1, want.S1) {
		c.Fail("control", "the honest responder failed: %v", err)
	}
	// the control
	if _, err := kxCall(c, true, bits, rr.S1, a, pb, rb, b.id); err != nil {
		c.Fail("control", "the honest initiator failed: %v", err)
	}
	c.Ev("control")
	try := func(key string, self *kxParty, pub, eph ref.Pt, id []byte) {
		w, werr := ref.SM2.KX(true, bits, self.d, self.r, self.id, pub, eph, id)
		if werr == nil && bytes.Equal(w.S1, rr.S1) {
			return // the same view after all
		}
		c.Note("mismatch", key)
		res, err := kxCall(c, true, bits, rr.S1, self, pub, eph, id)
		kxRefused(c, "mismatch/"+key, res, err, "mismatch in %s", key)
		c.Distinct(key, a.d, b.d, a.r, b.r, a.id, b.id)
	}
	other := scalar(c)
	if other.Cmp(sub(bigN, 1)) == 0 {
		other = num(5)
	}
	neg := func(x *big.Int) *big.Int { return new(big.Int).Sub(bigN, x) }
	if okKey(neg(a.d)) {
		try("own static key negated", &kxParty{neg(a.d), a.r, a.id}, pb, rb, b.id)
	}
	if okKey(neg(a.r)) {
		try("own ephemeral key negated", &kxParty{a.d, neg(a.r), a.id}, pb, rb, b.id)
		if okKey(neg(a.d)) {
			try("both own keys negated", &kxParty{neg(a.d), neg(a.r), a.id}, pb, rb, b.id)
		}
	}
	op := ref.SM2.MulG(other)
	all := []func(){
		func() { try("own static key", &kxParty{other, a.r, a.id}, pb, rb, b.id) },
		func() { try("own ephemeral key", &kxParty{a.d, other, a.id}, pb, rb, b.id) },
		func() { try("own keys swapped", &kxParty{a.r, a.d, a.id}, pb, rb, b.id) },
		func() { try("peer static key", a, op, rb, b.id) },
		func() { try("peer ephemeral key", a, pb, op, b.id) },
		func() { try("peer keys swapped", a, rb, pb, b.id) },
		func() { try("peer static key negated", a, ref.SM2.Neg(pb), rb, b.id) },
		func() { try("peer ephemeral key negated", a, pb, ref.SM2.Neg(rb), b.id) },
		func() { try("peer keys negated", a, ref.SM2.Neg(pb), ref.SM2.Neg(rb), b.id) },
		func() { try("own keys as the peer's", a, pa, ra, a.id) },
		func() { try("parties swapped", b, pa, ra, a.id) },
		func() { try("base point as the peer's ephemeral key", a, pb, ref.SM2.G, b.id) },
	}
	idv := func(id []byte) [][]byte {
		out := [][]byte{append(clone(id), 0), {}, ref.DefaultID, append([]byte{0}, id...), c.Bytes(8)}
		if len(id) > 0 {
			x := clone(id)
			x[c.IntN(len(x))] ^= 1 << uint(c.IntN(8))
			out = append(out, x, id[:len(id)-1], id[1:])
			y := clone(id)
			y[len(y)-1] ^= 1
			out = append(out, y)
		}
		return out
	}
	for _, x := range idv(a.id) {
		x := x
		if len(x) < 8192 {
			all = append(all, func() { try("own id", &kxParty{a.d, a.r, x}, pb, rb, b.id) })
		}
	}
	for _, x := range idv(b.id) {
		x := x
		if len(x) < 8192 {
			all = append(all, func() { try("peer id", a, pb, rb, x) })
		}
	}
	all = append(all,
		func() { try("ids swapped", &kxParty{a.d, a.r, b.id}, pb, rb, a.id) },
		func() {
			if len(a.id) > 0 {
				j := append(clone(a.id[len(a.id)-1:]), b.id...)
				if len(j) < 8192 {
					try("ids cut elsewhere", &kxParty{a.d, a.r, a.id[:len(a.id)-1]}, pb, rb, j)
				}
			}
		},
	)
	for i, f := range all {
		if (i+c.Idx)%2 == 0 {
			f()
		}
	}
	// roles: both responders, or the initiator's tags
	r2, err := kxCall(c, false, bits, nil, a, pb, rb, b.id)
	if err != nil {
		c.Fail("control", "a responder failed: %v", err)
	}
	w2, _ := ref.SM2.KX(false, bits, a.d, a.r, a.id, pb, rb, b.id)
	same(c, "role-key", r2.S2, w2.S2, "the responder's S2")
	if !bytes.Equal(w2.S2, want.S2) {
		c.Check(!sm2.ResponderConfirm(rr.S2, r2.S2), "roles", "two responders confirm each other")
		res, err := kxCall(c, true, bits, r2.S1, a, pb, rb, b.id)
		kxRefused(c, "roles", res, err, "a tag made in the wrong role")
	}
	res, err := kxCall(c, true, bits, rr.S2, a, pb, rb, b.id)
	kxRefused(c, "roles", res, err, "S2 in place of S1")
	c.Sample("views differ in %d ways", len(all))
}

// tagVariants alters a 32-byte tag in ways a careless comparison misses.
func tagVariants(c *mon.Case, t []byte) [][]byte {
	out := [][]byte{{}, {0}, t[:31], t[:1], t[:16], t[1:], append(clone(t), 0), append(clone(t), t...), append([]byte{0}, t...), make([]byte, 32), make([]byte, 31), bytes.Repeat([]byte{0xff}, 32)}
	for i := 0; i < 8; i++ {
		a, b := c.IntN(32), c.IntN(32)
		v := byte(1 + c.IntN(255))
		h := clone(t)
		h[a] ^= v
		if a != b {
			h[b] ^= v
		}
		out = append(out, h)
		h = clone(t)
		h[a] += v
		h[b] -= v
		out = append(out, h)
		h = clone(t)
		h[a], h[b] = h[b], h[a]
		out = append(out, h)
		h = c.Bytes(32)
		n := []int{1, 4, 8, 16, 31}[c.IntN(5)]
		copy(h, t[:n])
		out = append(out, h)
		h = c.Bytes(32)
		copy(h[32-n:], t[32-n:])
		out = append(out, h, c.Bytes(c.IntN(70)))
	}
	return out
}

func c18Tags(c *mon.Case) {
	a, b := anyParty(c), anyParty(c)
	bits := 128
	noteKX(c, a, b, bits)
	pb, rb := b.pub(), b.eph()
	want, err := ref.SM2.KX(true, bits, a.d, a.r, a.id, pb, rb, b.id)
	if err != nil {
		return
	}
	s1 := want.S1
	if _, err := kxCall(c, true, bits, s1, a, pb, rb, b.id); err != nil {
		c.Fail("control", "the initiator refuses the right tag: %v", err)
	}
	c.Ev("control")
	try := func(tag []byte) {
		if bytes.Equal(tag, s1) && tag != nil {
			return
		}
		c.Note("tag", tag)
		res, err := kxCall(c, true, bits, tag, a, pb, rb, b.id)
		kxRefused(c, "tag", res, err, "the altered tag %x (right: %x)", tag, s1)
		c.Ev("tag-refused")
		c.Distinct(tag, s1)
	}
	for i := 0; i < 32; i++ {
		h := clone(s1)
		h[i] ^= 1 << uint((c.Idx+i)%8)
		try(h)
	}
	for _, t := range tagVariants(c, s1) {
		try(t)
	}
	try(nil)
	c.Sample("tag %x and %d alterations", s1, 32)
}

func c18Confirm(c *mon.Case) {
	t := c.Bytes(32)
	c.Check(sm2.ResponderConfirm(t, clone(t)), "confirm-equal", "equal tags do not confirm")
	c.Ev("control")
	try := func(x []byte) {
		if bytes.Equal(x, t) {
			return
		}
		c.Note("tag", t)
		c.Note("altered", x)
		var r1, r2 bool
		c.NoPanic("ResponderConfirm", func() { r1, r2 = sm2.ResponderConfirm(t, x), sm2.ResponderConfirm(x, t) })
		c.Check(!r1 && !r2, "confirm", "ResponderConfirm accepts the altered tag %x for %x", x, t)
		c.Ev("confirm-false")
		c.Distinct(t, x)
	}
	for i := 0; i < 256; i++ {
		h := clone(t)
		h[i/8] ^= 1 << uint(i%8)
		try(h)
	}
	for _, x := range tagVariants(c, t) {
		try(x)
	}
	try(nil)
}

func c18Points(c *mon.Case) {
	a, b := anyParty(c), anyParty(c)
	bits := 8 * (1 + c.IntN(64))
	noteKX(c, a, b, bits)
	pb, rb := b.pub(), b.eph()
	sp := smallX(c)
	bad := []ref.Pt{
		{X: cp(pb.X), Y: add(pb.Y, 1)}, {X: add(pb.X, 1), Y: cp(pb.Y)}, {X: cp(pb.Y), Y: cp(pb.X)},
		{X: num(0), Y: num(0)}, {X: num(0), Y: num(1)}, {X: num(1), Y: num(0)},
		{X: below(c, bigP), Y: below(c, bigP)}, {X: cp(bigP), Y: cp(bigP)},
		{X: new(big.Int).Add(sp.X, bigP), Y: cp(sp.Y)}, {X: cp(rb.X), Y: new(big.Int).Add(rb.Y, bigP)},
		{X: cp(rb.X), Y: new(big.Int).Neg(rb.Y)}, {X: new(big.Int).Neg(rb.X), Y: cp(rb.Y)},
		{X: new(big.Int).SetBytes(c.Bytes(40)), Y: cp(rb.Y)},
		{X: cp(rb.X), Y: num(0)},
	}
	mk := func(p ref.Pt) *sm2.PublicKey {
		return &sm2.PublicKey{X: cp(p.X), Y: cp(p.Y), Curve: sm2.GetSm2P256V1()}
	}
	for i, p := range bad {
		if ref.SM2.On(p) {
			continue
		}
		for j := 0; j < 3; j++ {
			pub, eph := pb, rb
			if j != 1 {
				pub = p
			}
			if j != 0 {
				eph = p
			}
			for _, init := range []bool{false, true} {
				// the tag a careless initiator would compute itself is not
				// known, but a responder takes none
				var res *sm2.ExchangeResult
				var err error
				c.Note("point", p)
				c.NoPanic("CalculateKeyWithConfirmation/off-curve", func() {
					res, err = sm2.CalculateKeyWithConfirmation(init, bits, make([]byte, 32), gmPriv(a.d), gmPriv(a.r), a.id, mk(pub), mk(eph), b.id)
				})
				if err == nil || res != nil {
					c.Fail("off-curve", "the key exchange accepted a peer point off the curve (point %d, position %d, initiator %v)", i, j, init)
				}
				c.Ev("refused")
			}
		}
	}
	c.Distinct(a.d, a.r, bad[6].X)
	c.Sample("%d hostile points in either position", len(bad))
}

// c18Infinity forces the shared point to infinity.
func c18Infinity(c *mon.Case) {
	a, b := anyParty(c), anyParty(c)
	bits := 128
	switch c.Idx % 3 {
	case 0, 1: // P_B = -[x2]R_B
		for {
			v := new(big.Int).Mul(bar(b.eph().X), b.r)
			v.Neg(v).Mod(v, bigN)
			if okKey(v) {
				b.d = v
				break
			}
			b.r = keyOf(c, "rand")
		}
	case 2: // tA = 0
		for {
			v := new(big.Int).Mul(bar(a.eph().X), a.r)
			v.Neg(v).Mod(v, bigN)
			if okKey(v) {
				a.d = v
				break
			}
			a.r = keyOf(c, "rand")
		}
	}
	noteKX(c, a, b, bits)
	pb, rb := b.pub(), b.eph()
	res, err := kxCall(c, false, bits, nil, a, pb, rb, b.id)
	kxRefused(c, "infinity", res, err, "the shared point at infinity")
	// the tag for the all-zero shared point
	za, zb := ref.SM2.Z(a.pub(), a.id), ref.SM2.Z(pb, b.id)
	zero := make([]byte, 32)
	inner := ref.SM3(zero, za, zb, ref.B32(a.eph().X), ref.B32(a.eph().Y), ref.B32(rb.X), ref.B32(rb.Y))
	res, err = kxCall(c, true, bits, ref.SM3([]byte{2}, zero, inner), a, pb, rb, b.id)
	kxRefused(c, "infinity", res, err, "the shared point at infinity and the tag for it")
	c.Ev("infinity")
	c.Distinct(a.d, b.d)
}

func c18Limits(c *mon.Case) {
	a, b := anyParty(c), anyParty(c)
	pb, rb := b.pub(), b.eph()
	long := c.Bytes([]int{8192, 8193, 16384, 65536, 8192 + c.IntN(5000)}[c.IntN(5)])
	bits := 128
	noteKX(c, a, b, bits)
	tags := [][]byte{make([]byte, 32)}
	// the tag under the wrapped id length, and under the cut id
	zl := func(p ref.Pt, id []byte) []byte {
		l := len(id) * 8
		return ref.SM3([]byte{byte(l >> 8), byte(l)}, id, ref.B32(ref.SM2.A), ref.B32(ref.SM2.B), ref.B32(ref.SM2.G.X), ref.B32(ref.SM2.G.Y), ref.B32(p.X), ref.B32(p.Y))
	}
	for _, side := range []string{"own", "peer", "both"} {
		x := &kxParty{a.d, a.r, a.id}
		oid := b.id
		if side != "peer" {
			x.id = long
		}
		if side != "own" {
			oid = long
		}
		w, werr := ref.SM2.KX(true, bits, a.d, a.r, nil, pb, rb, nil)
		if werr == nil {
			inner := ref.SM3(ref.B32(w.U.X), zl(a.pub(), x.id), zl(pb, oid), ref.B32(a.eph().X), ref.B32(a.eph().Y), ref.B32(rb.X), ref.B32(rb.Y))
			tags = append(tags, ref.SM3([]byte{2}, ref.B32(w.U.Y), inner))
		}
		res, err := kxCall(c, false, bits, nil, x, pb, rb, oid)
		kxRefused(c, "long-id", res, err, "an id of %d bytes (%s)", len(long), side)
		for _, t := range tags {
			res, err = kxCall(c, true, bits, t, x, pb, rb, oid)
			kxRefused(c, "long-id", res, err, "an id of %d bytes (%s)", len(long), side)
		}
	}
	want, werr := ref.SM2.KX(true, 128, a.d, a.r, a.id, pb, rb, b.id)
	if werr != nil {
		return
	}
	for _, n := range []int{-1, -7, -8, -9, -128, -256, math.MinInt32, math.MinInt, math.MinInt + 7} {
		c.Note("bits", n)
		res, err := kxCall(c, false, n, nil, a, pb, rb, b.id)
		kxRefused(c, "negative", res, err, "a key length of %d bits", n)
		res, err = kxCall(c, true, n, want.S1, a, pb, rb, b.id)
		kxRefused(c, "negative", res, err, "a key length of %d bits", n)
	}
	if strconv.IntSize == 64 { // the standard's key derivation ends before 2^40 bits
		for _, n := range []int64{1 << 52, 1<<60 + 1, math.MaxInt64 - 7, math.MaxInt64 - 6, math.MaxInt64 - int64(c.IntN(6)), math.MaxInt64} {
			c.Note("bits", n)
			res, err := kxCall(c, false, int(n), nil, a, pb, rb, b.id)
			kxRefused(c, "too-long", res, err, "a key length of %d bits", n)
			res, err = kxCall(c, true, int(n), want.S1, a, pb, rb, b.id)
			kxRefused(c, "too-long", res, err, "a key length of %d bits", n)
		}
	}
	for _, n := range []int{0, 1, 7, 8, 128, 256, 1 + c.IntN(2000)} {
		c.Note("bits", n)
		for _, t := range [][]byte{nil, {}} {
			res, err := kxCall(c, true, n, t, a, pb, rb, b.id)
			kxRefused(c, "no-tag", res, err, "no tag and a key length of %d bits", n)
		}
		// and a tag that is not the responder's, whatever the key length
		t := clone(want.S1)
		t[c.IntN(32)] ^= 1 << uint(c.IntN(8))
		res, err := kxCall(c, true, n, t, a, pb, rb, b.id)
		kxRefused(c, "wrong-tag", res, err, "a wrong tag and a key length of %d bits", n)
	}
	c.Distinct(a.d, b.d, long)
}
