package ref

import (
	"math/big"
	"sync"
)

// Pt is an affine point; Inf means infinity (x, y then nil or zero).
type Pt struct {
	X, Y *big.Int
	Inf  bool
}

// Curve is y^2 = x^3 + ax + b over GF(p) with base point G of prime order N.
type Curve struct {
	P, A, B, N *big.Int
	G          Pt
	fast       bool
}

func hexInt(s string) *big.Int {
	x, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic(s)
	}
	return x
}

// SM2 is the recommended curve of GB/T 32918.5-2017.
var SM2 = &Curve{
	P:    hexInt("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFF"),
	A:    hexInt("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFC"),
	B:    hexInt("28E9FA9E9D9F5E344D5A9E4BCF6509A7F39789F515AB8F92DDBCBD414D940E93"),
	N:    hexInt("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFF7203DF6B21C6052B53BBF40939D54123"),
	G:    Pt{X: hexInt("32C4AE2C1F1981195F9904466A39C9948FE30BBFF2660BE1715A4589334C74C7"), Y: hexInt("BC3736A2F4F6779C59BDCEE36B692153D0A9877CC62A474002DF32E52139F0A0")},
	fast: true,
}

func init() {
	r := new(big.Int).Lsh(big.NewInt(1), 256)
	feRR = feRaw(new(big.Int).Mod(new(big.Int).Mul(r, r), SM2.P))
	feOne = feFrom(big.NewInt(1))
	feA = feFrom(SM2.A)
	feB = feFrom(SM2.B)
}

func (c *Curve) On(p Pt) bool {
	if p.Inf {
		return true
	}
	if p.X.Sign() < 0 || p.Y.Sign() < 0 || p.X.Cmp(c.P) >= 0 || p.Y.Cmp(c.P) >= 0 {
		return false
	}
	l := new(big.Int).Mul(p.Y, p.Y)
	l.Mod(l, c.P)
	return l.Cmp(c.rhs(p.X)) == 0
}

func (c *Curve) rhs(x *big.Int) *big.Int {
	r := new(big.Int).Mul(x, x)
	r.Add(r, c.A)
	r.Mul(r, x)
	r.Add(r, c.B)
	return r.Mod(r, c.P)
}

// Lift returns a point with the given x, if there is one.
func (c *Curve) Lift(x *big.Int, odd bool) (Pt, bool) {
	y := new(big.Int).ModSqrt(c.rhs(x), c.P)
	if y == nil {
		return Pt{}, false
	}
	if y.Sign() != 0 && (y.Bit(0) == 1) != odd {
		y.Sub(c.P, y)
	}
	return Pt{X: new(big.Int).Set(x), Y: y}, true
}

func (c *Curve) Neg(p Pt) Pt {
	if p.Inf {
		return p
	}
	y := new(big.Int).Neg(p.Y)
	return Pt{X: p.X, Y: y.Mod(y, c.P)}
}

func (c *Curve) Eq(p, q Pt) bool {
	if p.Inf || q.Inf {
		return p.Inf == q.Inf
	}
	return p.X.Cmp(q.X) == 0 && p.Y.Cmp(q.Y) == 0
}

// Add is textbook affine addition.
func (c *Curve) Add(p, q Pt) Pt {
	if p.Inf {
		return q
	}
	if q.Inf {
		return p
	}
	var l *big.Int
	if p.X.Cmp(q.X) == 0 {
		s := new(big.Int).Add(p.Y, q.Y)
		if s.Mod(s, c.P).Sign() == 0 {
			return Pt{Inf: true}
		}
		l = new(big.Int).Mul(p.X, p.X)
		l.Mul(l, big.NewInt(3))
		l.Add(l, c.A)
		d := new(big.Int).Lsh(p.Y, 1)
		l.Mul(l, d.ModInverse(d.Mod(d, c.P), c.P))
	} else {
		l = new(big.Int).Sub(q.Y, p.Y)
		d := new(big.Int).Sub(q.X, p.X)
		l.Mul(l, d.ModInverse(d.Mod(d, c.P), c.P))
	}
	l.Mod(l, c.P)
	x := new(big.Int).Mul(l, l)
	x.Sub(x, p.X)
	x.Sub(x, q.X)
	x.Mod(x, c.P)
	y := new(big.Int).Sub(p.X, x)
	y.Mul(y, l)
	y.Sub(y, p.Y)
	y.Mod(y, c.P)
	return Pt{X: x, Y: y}
}

// MulSlow is double-and-add over Add, for any curve and any k >= 0.
func (c *Curve) MulSlow(p Pt, k *big.Int) Pt {
	r := Pt{Inf: true}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = c.Add(r, r)
		if k.Bit(i) == 1 {
			r = c.Add(r, p)
		}
	}
	return r
}

func toJac(p Pt) jac {
	if p.Inf {
		return jac{}
	}
	return jac{feFrom(p.X), feFrom(p.Y), feOne}
}

func fromJac(j *jac) Pt {
	if j.z.isZero() {
		return Pt{Inf: true}
	}
	zi := feFrom(new(big.Int).ModInverse(j.z.big(), SM2.P))
	z2 := feSqr(&zi)
	z3 := feMul(&z2, &zi)
	x := feMul(&j.x, &z2)
	y := feMul(&j.y, &z3)
	return Pt{X: x.big(), Y: y.big()}
}

var (
	combOnce sync.Once
	comb     [64][16]jac
)

func baseComb() {
	b := toJac(SM2.G)
	for i := range comb {
		comb[i][0] = jac{}
		for d := 1; d < 16; d++ {
			comb[i][d] = comb[i][d-1].add(&b)
		}
		for k := 0; k < 4; k++ {
			b = b.double()
		}
	}
}

// Mul is k*p (k reduced to non-negative), fast on the SM2 curve.
func (c *Curve) Mul(p Pt, k *big.Int) Pt {
	if k.Sign() < 0 {
		return c.Mul(c.Neg(p), new(big.Int).Neg(k))
	}
	if !c.fast {
		return c.MulSlow(p, k)
	}
	if p.Inf {
		return p
	}
	if k.BitLen() > 256 {
		k = new(big.Int).Mod(k, c.N)
	}
	if p.X == c.G.X && p.Y == c.G.Y {
		return c.MulG(k)
	}
	var tab [16]jac
	tab[1] = toJac(p)
	for d := 2; d < 16; d++ {
		tab[d] = tab[d-1].add(&tab[1])
	}
	var r jac
	for i := 63; i >= 0; i-- {
		for j := 0; j < 4; j++ {
			r = r.double()
		}
		r = r.add(&tab[nib(k, i)])
	}
	return fromJac(&r)
}

func nib(k *big.Int, i int) uint {
	return k.Bit(4*i) | k.Bit(4*i+1)<<1 | k.Bit(4*i+2)<<2 | k.Bit(4*i+3)<<3
}

// MulG is k*G.
func (c *Curve) MulG(k *big.Int) Pt {
	if !c.fast {
		return c.Mul(c.G, k)
	}
	if k.Sign() < 0 || k.BitLen() > 256 {
		k = new(big.Int).Mod(k, c.N)
	}
	combOnce.Do(baseComb)
	var r jac
	for i := 0; i < 64; i++ {
		r = r.add(&comb[i][nib(k, i)])
	}
	return fromJac(&r)
}

// Toy finds a small curve with a = -3 and prime order != p, deterministically.
func Toy(p int64, skip int) *Curve {
	P := big.NewInt(p)
	for b := int64(1); b < p; b++ {
		a := p - 3
		if (4*a*a%p*a+27*b*b)%p == 0 {
			continue
		}
		var pts []Pt
		for x := int64(0); x < p; x++ {
			r := ((x*x%p+a)*x + b) % p
			for y := int64(0); y < p; y++ {
				if y*y%p == r {
					pts = append(pts, Pt{X: big.NewInt(x), Y: big.NewInt(y)})
				}
			}
		}
		n := big.NewInt(int64(len(pts) + 1))
		if !n.ProbablyPrime(20) || n.Cmp(P) == 0 || n.Int64() < 5 {
			continue
		}
		// the real library writes infinity as (0, 0)
		if skip > 0 {
			skip--
			continue
		}
		g := pts[len(pts)/3]
		return &Curve{P: P, A: big.NewInt(a), B: big.NewInt(b), N: n, G: g}
	}
	return nil
}
