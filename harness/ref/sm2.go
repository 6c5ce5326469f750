package ref

import (
	"bytes"
	"errors"
	"math/big"
)

// B32 is the 32-byte big-endian form.
func B32(x *big.Int) []byte {
	b := make([]byte, 32)
	x.FillBytes(b)
	return b
}

var DefaultID = []byte("1234567812345678")

// Z is the identity hash; id shorter than 8192 bytes.
func (c *Curve) Z(pub Pt, id []byte) []byte {
	l := len(id) * 8
	return SM3([]byte{byte(l >> 8), byte(l)}, id, B32(c.A), B32(c.B), B32(c.G.X), B32(c.G.Y), B32(pub.X), B32(pub.Y))
}

// E is the message representative; id nil means the default id.
func (c *Curve) E(pub Pt, id, msg []byte) *big.Int {
	if id == nil {
		id = DefaultID
	}
	return new(big.Int).SetBytes(SM3(c.Z(pub, id), msg))
}

// SignK signs with a given nonce; ok is false when the standard says retry.
func (c *Curve) SignK(d, e, k *big.Int) (r, s *big.Int, ok bool) {
	p := c.MulG(k)
	r = new(big.Int).Add(e, p.X)
	r.Mod(r, c.N)
	if r.Sign() == 0 || new(big.Int).Add(r, k).Cmp(c.N) == 0 {
		return nil, nil, false
	}
	s = new(big.Int).Mul(r, d)
	s.Sub(k, s)
	i := new(big.Int).Add(d, big.NewInt(1))
	if i.ModInverse(i, c.N) == nil {
		return nil, nil, false
	}
	s.Mul(s, i)
	s.Mod(s, c.N)
	if s.Sign() == 0 {
		return nil, nil, false
	}
	return r, s, true
}

// Nonce recovers k from a signature: k = s(1+d) + rd.
func (c *Curve) Nonce(d, r, s *big.Int) *big.Int {
	k := new(big.Int).Add(d, big.NewInt(1))
	k.Mul(k, s)
	k.Add(k, new(big.Int).Mul(r, d))
	return k.Mod(k, c.N)
}

// Verify is the standard's verification of (r, s) for representative e.
func (c *Curve) VerifyE(pub Pt, e, r, s *big.Int) bool {
	if r.Sign() <= 0 || s.Sign() <= 0 || r.Cmp(c.N) >= 0 || s.Cmp(c.N) >= 0 {
		return false
	}
	if pub.Inf || !c.On(pub) {
		return false
	}
	t := new(big.Int).Add(r, s)
	t.Mod(t, c.N)
	if t.Sign() == 0 {
		return false
	}
	p := c.Add(c.MulG(s), c.Mul(pub, t))
	if p.Inf {
		return false
	}
	v := new(big.Int).Add(e, p.X)
	return v.Mod(v, c.N).Cmp(r) == 0
}

// Verify verifies over an id and message.
func (c *Curve) Verify(pub Pt, id, msg []byte, r, s *big.Int) bool {
	if len(id) >= 8192 || pub.Inf || !c.On(pub) {
		return false
	}
	return c.VerifyE(pub, c.E(pub, id, msg), r, s)
}

// KDF is the standard's key derivation to n bytes.
func KDF(n int, parts ...[]byte) []byte {
	var z []byte
	for _, p := range parts {
		z = append(z, p...)
	}
	base := NewSM3()
	base.Write(z)
	out := make([]byte, 0, n+32)
	for ct := uint32(1); len(out) < n; ct++ {
		h := base.Clone()
		h.Write([]byte{byte(ct >> 24), byte(ct >> 16), byte(ct >> 8), byte(ct)})
		d := h.Sum()
		out = append(out, d[:]...)
	}
	return out[:n]
}

// EncryptK encrypts with a given ephemeral scalar, returning C1, C2, C3.
// ok is false when the key stream is all zero.
func (c *Curve) EncryptK(pub Pt, msg []byte, k *big.Int) (c1, c2, c3 []byte, ok bool) {
	p1 := c.MulG(k)
	p2 := c.Mul(pub, k)
	t := KDF(len(msg), B32(p2.X), B32(p2.Y))
	zero := true
	c2 = make([]byte, len(msg))
	for i := range msg {
		c2[i] = msg[i] ^ t[i]
		zero = zero && t[i] == 0
	}
	c1 = append([]byte{4}, append(B32(p1.X), B32(p1.Y)...)...)
	c3 = SM3(B32(p2.X), msg, B32(p2.Y))
	return c1, c2, c3, !zero
}

// Split cuts a raw ciphertext in the given order (true: C1 C3 C2).
func Split(ct []byte, c3First bool) (c1, c2, c3 []byte) {
	c1 = ct[:65]
	if c3First {
		return c1, ct[97:], ct[65:97]
	}
	return c1, ct[65 : len(ct)-32], ct[len(ct)-32:]
}

// Join is the inverse of Split.
func Join(c1, c2, c3 []byte, c3First bool) []byte {
	var o []byte
	o = append(o, c1...)
	if c3First {
		o = append(o, c3...)
		return append(o, c2...)
	}
	o = append(o, c2...)
	return append(o, c3...)
}

// Decrypt decrypts a raw ciphertext.
func (c *Curve) Decrypt(d *big.Int, ct []byte, c3First bool) ([]byte, error) {
	if len(ct) < 97 || ct[0] != 4 {
		return nil, errors.New("malformed")
	}
	c1, c2, c3 := Split(ct, c3First)
	p := Pt{X: new(big.Int).SetBytes(c1[1:33]), Y: new(big.Int).SetBytes(c1[33:65])}
	if !c.On(p) {
		return nil, errors.New("off curve")
	}
	q := c.Mul(p, d)
	if q.Inf {
		return nil, errors.New("infinity")
	}
	t := KDF(len(c2), B32(q.X), B32(q.Y))
	m := make([]byte, len(c2))
	for i := range m {
		m[i] = c2[i] ^ t[i]
	}
	if !bytes.Equal(SM3(B32(q.X), m, B32(q.Y)), c3) {
		return nil, errors.New("hash")
	}
	return m, nil
}

// KXResult is what one run of the key agreement yields.
type KXResult struct {
	Key, S1, S2 []byte
	U           Pt
}

// KX is the standard's key agreement seen from one party. z's and ephemeral
// points are in initiator, responder order.
func (c *Curve) KX(initiator bool, bits int, d, r *big.Int, selfID []byte, otherPub, otherEph Pt, otherID []byte) (KXResult, error) {
	selfPub, selfEph := c.MulG(d), c.MulG(r)
	if otherPub.Inf || otherEph.Inf || !c.On(otherPub) || !c.On(otherEph) || selfEph.Inf {
		return KXResult{}, errors.New("point")
	}
	w := uint(127)
	bar := func(x *big.Int) *big.Int {
		m := new(big.Int).Lsh(big.NewInt(1), w)
		v := new(big.Int).Mod(x, m)
		return v.Add(v, m)
	}
	t := new(big.Int).Mul(bar(selfEph.X), r)
	t.Add(t, d)
	t.Mod(t, c.N)
	q := c.Add(otherPub, c.Mul(otherEph, bar(otherEph.X)))
	u := c.Mul(q, t)
	if u.Inf {
		return KXResult{}, errors.New("infinity")
	}
	za, zb := c.Z(selfPub, selfID), c.Z(otherPub, otherID)
	ra, rb := selfEph, otherEph
	if !initiator {
		za, zb = zb, za
		ra, rb = rb, ra
	}
	var res KXResult
	res.U = u
	res.Key = KDF((bits+7)/8, B32(u.X), B32(u.Y), za, zb)
	inner := SM3(B32(u.X), za, zb, B32(ra.X), B32(ra.Y), B32(rb.X), B32(rb.Y))
	res.S1 = SM3([]byte{2}, B32(u.Y), inner)
	res.S2 = SM3([]byte{3}, B32(u.Y), inner)
	return res, nil
}
