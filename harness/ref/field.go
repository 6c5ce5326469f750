package ref

import (
	"math/big"
	"math/bits"
)

// fe is an element of GF(p), p the SM2 prime, in Montgomery form (R = 2^256),
// little-endian limbs.
type fe [4]uint64

var feP = fe{0xffffffffffffffff, 0xffffffff00000000, 0xffffffffffffffff, 0xfffffffeffffffff}
var feOne, feRR, feA, feB fe

func feAdd(a, b *fe) (r fe) {
	var c, bo uint64
	var t fe
	t[0], c = bits.Add64(a[0], b[0], 0)
	t[1], c = bits.Add64(a[1], b[1], c)
	t[2], c = bits.Add64(a[2], b[2], c)
	t[3], c = bits.Add64(a[3], b[3], c)
	r[0], bo = bits.Sub64(t[0], feP[0], 0)
	r[1], bo = bits.Sub64(t[1], feP[1], bo)
	r[2], bo = bits.Sub64(t[2], feP[2], bo)
	r[3], bo = bits.Sub64(t[3], feP[3], bo)
	if c == 0 && bo == 1 {
		return t
	}
	return r
}

func feSub(a, b *fe) (r fe) {
	var bo, c uint64
	r[0], bo = bits.Sub64(a[0], b[0], 0)
	r[1], bo = bits.Sub64(a[1], b[1], bo)
	r[2], bo = bits.Sub64(a[2], b[2], bo)
	r[3], bo = bits.Sub64(a[3], b[3], bo)
	if bo == 1 {
		r[0], c = bits.Add64(r[0], feP[0], 0)
		r[1], c = bits.Add64(r[1], feP[1], c)
		r[2], c = bits.Add64(r[2], feP[2], c)
		r[3], _ = bits.Add64(r[3], feP[3], c)
	}
	return
}

// feMul is schoolbook CIOS; -p^-1 mod 2^64 is 1.
func feMul(a, b *fe) (r fe) {
	var t [6]uint64
	for i := 0; i < 4; i++ {
		var c uint64
		for j := 0; j < 4; j++ {
			hi, lo := bits.Mul64(a[j], b[i])
			var cc uint64
			lo, cc = bits.Add64(lo, t[j], 0)
			hi += cc
			lo, cc = bits.Add64(lo, c, 0)
			hi += cc
			t[j], c = lo, hi
		}
		var cc uint64
		t[4], cc = bits.Add64(t[4], c, 0)
		t[5] = cc
		m := t[0]
		hi, lo := bits.Mul64(m, feP[0])
		_, cc = bits.Add64(lo, t[0], 0)
		c = hi + cc
		for j := 1; j < 4; j++ {
			hi, lo = bits.Mul64(m, feP[j])
			lo, cc = bits.Add64(lo, t[j], 0)
			hi += cc
			lo, cc = bits.Add64(lo, c, 0)
			hi += cc
			t[j-1], c = lo, hi
		}
		t[3], cc = bits.Add64(t[4], c, 0)
		t[4] = t[5] + cc
	}
	var bo uint64
	r[0], bo = bits.Sub64(t[0], feP[0], 0)
	r[1], bo = bits.Sub64(t[1], feP[1], bo)
	r[2], bo = bits.Sub64(t[2], feP[2], bo)
	r[3], bo = bits.Sub64(t[3], feP[3], bo)
	if t[4] == 0 && bo == 1 {
		copy(r[:], t[:4])
	}
	return
}

func feSqr(a *fe) fe { return feMul(a, a) }

func (a *fe) isZero() bool { return a[0]|a[1]|a[2]|a[3] == 0 }

func feRaw(x *big.Int) (r fe) {
	b := make([]byte, 32)
	x.FillBytes(b)
	for i := 0; i < 4; i++ {
		for j := 0; j < 8; j++ {
			r[3-i] = r[3-i]<<8 | uint64(b[8*i+j])
		}
	}
	return
}

func feFrom(x *big.Int) fe {
	r := feRaw(x)
	return feMul(&r, &feRR)
}

func (a *fe) big() *big.Int {
	one := fe{1}
	n := feMul(a, &one)
	b := make([]byte, 32)
	for i := 0; i < 4; i++ {
		for j := 0; j < 8; j++ {
			b[8*i+j] = byte(n[3-i] >> (56 - 8*uint(j)))
		}
	}
	return new(big.Int).SetBytes(b)
}

// jac is a Jacobian point; z = 0 is infinity.
type jac struct{ x, y, z fe }

func (p *jac) double() (r jac) {
	if p.z.isZero() || p.y.isZero() {
		return jac{}
	}
	// generic a: M = 3x^2 + a z^4
	xx := feSqr(&p.x)
	yy := feSqr(&p.y)
	yyyy := feSqr(&yy)
	zz := feSqr(&p.z)
	z4 := feSqr(&zz)
	s := feMul(&p.x, &yy)
	s = feAdd(&s, &s)
	s = feAdd(&s, &s)
	m := feAdd(&xx, &xx)
	m = feAdd(&m, &xx)
	az := feMul(&feA, &z4)
	m = feAdd(&m, &az)
	r.x = feSqr(&m)
	r.x = feSub(&r.x, &s)
	r.x = feSub(&r.x, &s)
	t := feSub(&s, &r.x)
	r.y = feMul(&m, &t)
	y8 := feAdd(&yyyy, &yyyy)
	y8 = feAdd(&y8, &y8)
	y8 = feAdd(&y8, &y8)
	r.y = feSub(&r.y, &y8)
	r.z = feMul(&p.y, &p.z)
	r.z = feAdd(&r.z, &r.z)
	return
}

func (p *jac) add(q *jac) (r jac) {
	if p.z.isZero() {
		return *q
	}
	if q.z.isZero() {
		return *p
	}
	z1z1 := feSqr(&p.z)
	z2z2 := feSqr(&q.z)
	u1 := feMul(&p.x, &z2z2)
	u2 := feMul(&q.x, &z1z1)
	s1 := feMul(&p.y, &q.z)
	s1 = feMul(&s1, &z2z2)
	s2 := feMul(&q.y, &p.z)
	s2 = feMul(&s2, &z1z1)
	h := feSub(&u2, &u1)
	rr := feSub(&s2, &s1)
	if h.isZero() {
		if rr.isZero() {
			return p.double()
		}
		return jac{}
	}
	hh := feSqr(&h)
	hhh := feMul(&hh, &h)
	v := feMul(&u1, &hh)
	r.x = feSqr(&rr)
	r.x = feSub(&r.x, &hhh)
	r.x = feSub(&r.x, &v)
	r.x = feSub(&r.x, &v)
	t := feSub(&v, &r.x)
	r.y = feMul(&rr, &t)
	w := feMul(&s1, &hhh)
	r.y = feSub(&r.y, &w)
	r.z = feMul(&p.z, &q.z)
	r.z = feMul(&r.z, &h)
	return
}
