package props

import (
	"fmt"
	"math/big"
	mrand "math/rand/v2"
	"sort"
	"strings"

	"github.com/ZZMarquis/gm/sm2"
	"github.com/ZZMarquis/gm/util"

	"vharness/mon"
	"vharness/ref"
)

// scribble overwrites every byte slice, integer and index list among the
// results of an operation, to the end of their capacity.
func scribble(res []any) (n int64) {
	for _, v := range res {
		switch x := v.(type) {
		case []byte:
			x = x[:cap(x)]
			for i := range x {
				x[i] ^= 0x5a
			}
			n += int64(len(x))
		case *big.Int:
			if x == nil {
				continue
			}
			w := x.Bits()
			w = w[:cap(w)]
			for i := range w {
				w[i] = ^w[i]
			}
			x.SetInt64(0x5a5a)
			n += int64(len(w))
		case []int:
			x = x[:cap(x)]
			for i := range x {
				x[i] = ^x[i]
			}
			n += int64(len(x))
		}
	}
	return n
}

// world is everything that must not change: the objects and the curve.
func world(fx *Fx) string {
	cv := sm2.GetSm2P256V1()
	return dump(fx) + dump(cv.Params()) + dump(cv.A)
}

// c27History runs a history of operations on one set of objects.
func c27History(c *mon.Case) {
	fx := newFx(c, false)
	before := world(fx)
	type past struct {
		op  string
		res []any
		d   string
	}
	var hist []past
	n := 6 + c.IntN(12)
	var names []string
	for i := 0; i < n; i++ {
		op := allOps[c.IntN(len(allOps))]
		if c.Idx < len(allOps) && i == 0 {
			op = allOps[c.Idx]
		}
		names = append(names, op.name)
		c.Note("history", strings.Join(names, ", "))
		s := step{op: op, seed: c.Uint64()}
		d, res := s.run(fx)
		if strings.HasPrefix(d, "panic:") {
			c.Fail("panic/"+op.name, "%s: %s", op.name, d)
		}
		if after := world(fx); after != before {
			c.Fail("argument/"+op.name, "%s changed what it was given or the curve: %s", op.name, firstDiff(before, after))
		}
		for _, p := range hist {
			if now := dump(p.res); now != p.d {
				c.Fail("earlier result/"+op.name, "%s changed what an earlier %s returned: %s", op.name, p.op, firstDiff(p.d, now))
			}
			c.Ev("earlier results unchanged")
		}
		c.Ev("op " + op.name)
		c.Ev("calls that left their arguments alone")
		if c.IntN(2) == 0 {
			hist = append(hist, past{op.name, res, dump(res)})
			continue
		}
		// the caller may do as it likes with what it got
		c.EvN("result bytes and words overwritten", scribble(res))
		if after := world(fx); after != before {
			c.Fail("shared result/"+op.name, "writing to what %s returned changed an argument or the curve: %s", op.name, firstDiff(before, after))
		}
		for _, p := range hist {
			if now := dump(p.res); now != p.d {
				c.Fail("shared result/"+op.name, "writing to what %s returned changed what an earlier %s returned: %s", op.name, p.op, firstDiff(p.d, now))
			}
		}
		if d2, _ := s.run(fx); d2 != d {
			c.Fail("hidden state/"+op.name, "after its first result was overwritten, %s gives %q instead of %q", op.name, d2, d)
		}
		c.Ev("overwritten results did not matter")
	}
	c.Distinct("history", strings.Join(names, ","))
	c.Sample("history of %d operations: %s", n, strings.Join(names, ", "))
}

// c27Points gives the curve operations special points and scalars, as the
// same objects twice and as the curve's own, and overwrites the results.
func c27Points(c *mon.Case) {
	cv := sm2.GetSm2P256V1()
	d, _ := anyKey(c)
	p := ref.SM2.MulG(d)
	x, y := cp(p.X), cp(p.Y)
	if c.IntN(4) == 0 {
		x, y = cv.Gx, cv.Gy
	}
	nx, ny := cp(x), new(big.Int).Sub(bigP, y)
	zx, zy := new(big.Int), new(big.Int)
	var rx, ry *big.Int
	var name string
	k := make([]byte, 1+c.IntN(34))
	call := func() {
		switch name {
		case "Add(P,O)":
			rx, ry = cv.Add(x, y, zx, zy)
		case "Add(O,P)":
			rx, ry = cv.Add(zx, zy, x, y)
		case "Add(O,O)":
			rx, ry = cv.Add(zx, zy, zx, zy)
		case "Add(P,-P)":
			rx, ry = cv.Add(x, y, nx, ny)
		case "Add(P,P)":
			rx, ry = cv.Add(x, y, x, y)
		case "Double(P)":
			rx, ry = cv.Double(x, y)
		case "Double(O)":
			rx, ry = cv.Double(zx, zy)
		case "ScalarMult(P,k)":
			rx, ry = cv.ScalarMult(x, y, k)
		case "ScalarMult(O,k)":
			rx, ry = cv.ScalarMult(zx, zy, k)
		case "ScalarBaseMult(k)":
			rx, ry = cv.ScalarBaseMult(k)
		case "IsOnCurve(P)":
			cv.IsOnCurve(x, y)
			rx, ry = nil, nil
		case "IsOnCurve(O)":
			cv.IsOnCurve(zx, zy)
			rx, ry = nil, nil
		}
	}
	names := []string{"Add(P,O)", "Add(O,P)", "Add(O,O)", "Add(P,-P)", "Add(P,P)", "Double(P)", "Double(O)", "ScalarMult(P,k)", "ScalarMult(O,k)", "ScalarBaseMult(k)", "IsOnCurve(P)", "IsOnCurve(O)"}
	for i := 0; i < 5; i++ {
		name = names[c.IntN(len(names))]
		switch c.IntN(4) {
		case 0:
			for j := range k {
				k[j] = 0
			}
			k[len(k)-1] = byte(c.IntN(3))
		case 1:
			copy(k, ref.B32(add(bigN, int64(c.IntN(3)-1))))
		default:
			copy(k, c.Bytes(len(k)))
		}
		c.Note("operation", name)
		c.Note("k", k)
		state := func() string { return dump([]any{x, y, nx, ny, zx, zy, k, cv.Params(), cv.A, sm2.GetSm2P256V1()}) }
		before := state()
		if v, panicked := mon.Panics(call); panicked {
			// what special points give is not this property's business
			_ = v
			rx, ry = nil, nil
		}
		if after := state(); after != before {
			c.Fail("operand/"+name, "%s changed an operand or the curve: %s", name, firstDiff(before, after))
		}
		for _, r := range []*big.Int{rx, ry} {
			if r == nil {
				continue
			}
			for w, o := range map[string]*big.Int{"an operand": x, "an operand ": y, "operand O": zx, "operand O ": zy, "operand -P": nx, "operand -P ": ny,
				"Gx": cv.Gx, "Gy": cv.Gy, "P": cv.P, "B": cv.B, "N": cv.N, "A": cv.A} {
				c.Check(r != o, "operand returned/"+name, "%s returned %s itself", name, strings.TrimSpace(w))
			}
		}
		first := digest(rx, ry)
		c.EvN("result bytes and words overwritten", scribble([]any{rx, ry}))
		if after := state(); after != before {
			c.Fail("shared result/"+name, "writing to the result of %s changed an operand or the curve: %s", name, firstDiff(before, after))
		}
		if rx != nil {
			call()
			c.Check(digest(rx, ry) == first, "hidden state/"+name, "%s gives another result after its first was overwritten", name)
		}
		c.Ev("curve calls")
		c.Distinct(name, d.BitLen(), len(k), k[len(k)-1])
	}
	c.Sample("%s on a point of a %d-bit key", name, d.BitLen())
}

func wideInt(c *mon.Case) *big.Int {
	var x *big.Int
	switch c.IntN(8) {
	case 0:
		x = num(int64(c.IntN(7) - 3))
	case 1:
		x = cp([]*big.Int{bigN, bigP, cv0().Gx, cv0().B}[c.IntN(4)])
	case 2:
		x = new(big.Int).Lsh(bigOne, uint(c.IntN(600)))
	case 3:
		x = new(big.Int).Sub(new(big.Int).Lsh(bigOne, uint(c.IntN(600))), bigOne)
	default:
		x = new(big.Int).SetBytes(c.Bytes(c.IntN(80)))
	}
	if c.IntN(3) == 0 {
		x.Neg(x)
	}
	if c.IntN(2) == 0 {
		// spare capacity, so that in-place work has room to go unnoticed
		x = new(big.Int).Rsh(new(big.Int).Lsh(x, 192), 192)
	}
	return x
}

func cv0() sm2.P256V1Curve { return sm2.GetSm2P256V1() }

// c27Helpers compares the big-integer helpers with math/big on copies.
func c27Helpers(c *mon.Case) {
	for i := 0; i < 40; i++ {
		x, y := wideInt(c), wideInt(c)
		same := c.IntN(4) == 0
		if same {
			y = x
		}
		n, b := uint(c.IntN(700)), uint(c.IntN(2))
		X, Y := cp(x), cp(y)
		c.Note("x", X)
		c.Note("y", Y)
		c.Note("n", n)
		var got, want *big.Int
		var name string
		ops := []func(){
			func() { name, got, want = "Add", util.Add(x, y), new(big.Int).Add(X, Y) },
			func() { name, got, want = "Sub", util.Sub(x, y), new(big.Int).Sub(X, Y) },
			func() { name, got, want = "Mul", util.Mul(x, y), new(big.Int).Mul(X, Y) },
			func() {
				if Y.Sign() != 0 {
					name, got, want = "Mod", util.Mod(x, y), euclid(X, Y)
				}
			},
			func() {
				m := new(big.Int).Abs(Y)
				if m.Sign() == 0 || new(big.Int).GCD(nil, nil, new(big.Int).Abs(X), m).Cmp(bigOne) != 0 {
					return
				}
				name, got, want = "ModInverse", util.ModInverse(x, y), nil
				// got must be the number in [0, |y|) with x*got = 1 mod |y|
				p := new(big.Int).Mul(X, got)
				if got.Sign() >= 0 && got.Cmp(m) < 0 && euclid(p.Sub(p, bigOne), m).Sign() == 0 {
					want = cp(got)
				} else {
					want = num(-1)
				}
			},
			func() { name, got, want = "Lsh", util.Lsh(x, n), new(big.Int).Mul(X, pow2(n)) },
			func() {
				name, got, want = "SetBit", util.SetBit(x, int(n), b), cp(X)
				if X.Bit(int(n)) != b {
					if b == 1 {
						want.Add(X, pow2(n))
					} else {
						want.Sub(X, pow2(n))
					}
				}
			},
			func() {
				name, got, want = "And", util.And(x, y), new(big.Int)
				for k := 0; k < 800; k++ {
					if X.Bit(k)&Y.Bit(k) == 1 {
						want.Add(want, pow2(uint(k)))
					}
				}
				if X.Sign() < 0 && Y.Sign() < 0 {
					want.Sub(want, pow2(800))
				}
			},
			func() {
				name, got, want = "ZForAffine", util.ZForAffine(x, y), num(1)
				if X.Sign() == 0 && Y.Sign() == 0 {
					want = num(0)
				}
			},
		}
		before := dump([]any{x, y})
		if c.IntN(12) == 0 {
			x, y = num(int64(c.IntN(2))), num(int64(c.IntN(2)))
			inf := x.Sign() == 0 && y.Sign() == 0
			c.Check(util.IsEcPointInfinity(x, y) == inf, "IsEcPointInfinity", "IsEcPointInfinity(%s, %s) is %v", x, y, !inf)
			continue
		}
		ops[c.IntN(len(ops))]()
		if name == "" {
			continue
		}
		c.Check(got != nil, "value/"+name, "%s returned nil", name)
		c.Check(got.Cmp(want) == 0, "value/"+name, "%s returned %x, the right value is %x", name, got, want)
		c.Check(dump([]any{x, y}) == before, "operand/"+name, "%s changed an operand: %s", name, firstDiff(before, dump([]any{x, y})))
		c.Check(got != x && got != y, "operand returned/"+name, "%s returned its operand", name)
		scribble([]any{got})
		c.Check(dump([]any{x, y}) == before, "shared result/"+name, "the result of %s shares memory with an operand: %s", name, firstDiff(before, dump([]any{x, y})))
		c.Ev("helper " + name)
		c.Ev("helper results correct and fresh")
		c.Distinct(name, X.Sign(), Y.Sign(), X.BitLen(), Y.BitLen(), same)
		c.Sample("%s(%x, %x) = %x", name, X, Y, want)
	}
}

func pow2(n uint) *big.Int { return new(big.Int).Lsh(bigOne, n) }

// euclid is x mod |m| in [0, |m|), by truncated division.
func euclid(x, m *big.Int) *big.Int {
	m = new(big.Int).Abs(m)
	q := new(big.Int).Quo(x, m)
	r := new(big.Int).Sub(x, q.Mul(q, m))
	if r.Sign() < 0 {
		r.Add(r, m)
	}
	return r
}

// c27Keys watches the keys themselves through long use: one pair of keys,
// the numbers and the curve it points to, after every kind of call.
func c27Keys(c *mon.Case) {
	fx := newFx(c, false)
	var heavy []*anOp
	for _, o := range allOps {
		if strings.HasPrefix(o.name, "sm2.") || strings.HasPrefix(o.name, "key") || strings.HasPrefix(o.name, "cert.") {
			heavy = append(heavy, o)
		}
	}
	keys := func() string {
		var b strings.Builder
		for i := range fx.Priv {
			fmt.Fprintf(&b, "d%d=%x X=%x Y=%x N=%x P=%x A=%x B=%x G=%x,%x ", i, fx.Priv[i].D, fx.Pub[i].X, fx.Pub[i].Y,
				fx.Priv[i].Curve.N, fx.Pub[i].Curve.P, fx.Pub[i].Curve.A, fx.Priv[i].Curve.B, fx.Priv[i].Curve.Gx, fx.Pub[i].Curve.Gy)
		}
		return b.String()
	}
	before := keys()
	for i := 0; i < 12; i++ {
		o := heavy[c.IntN(len(heavy))]
		d, res := o.perform(fx, mrand.New(mrand.NewPCG(c.Uint64(), 7)))
		scribble(res)
		c.Check(keys() == before, "keys/"+o.name, "%s changed a key: %s", o.name, firstDiff(before, keys()))
		c.Check(!strings.HasPrefix(d, "panic:"), "panic/"+o.name, "%s: %s", o.name, d)
		c.Ev("key uses")
	}
	for i := range fx.D {
		c.Check(fx.Priv[i].D.Cmp(fx.D[i]) == 0 && fx.Pub[i].X.Cmp(fx.P[i].X) == 0 && fx.Pub[i].Y.Cmp(fx.P[i].Y) == 0, "keys", "key %d is not what it was", i)
	}
	c.Distinct("keys", before)
}

func init() {
	register(&mon.Prop{
		ID:   "C27",
		Rule: "around every call, everything reachable from the arguments (with the spare capacity of slices), the curve parameters and earlier results are compared with a snapshot; then the results are overwritten and nothing else may change, nor a repeated call give something else; the integer helpers are compared with values computed on copies",
		Workloads: []mon.Workload{
			{Name: "history", Quick: 2400, Thorough: 20000, Run: c27History},
			{Name: "points", Quick: 1800, Thorough: 20000, Run: c27Points},
			{Name: "helpers", Quick: 4500, Thorough: 60000, Run: c27Helpers},
			{Name: "keys", Quick: 450, Thorough: 5000, Run: c27Keys},
			{Name: "odd", Quick: 450, Thorough: 5000, Run: c27Odd},
		},
		Need: map[string]int64{"calls that left their arguments alone": 5000, "overwritten results did not matter": 1000, "earlier results unchanged": 5000, "curve calls": 1500, "helper results correct and fresh": 20000, "key uses": 1000, "odd arguments left alone": 1000},
		Assume: []string{
			"a parsed certificate or request refers to the input it was parsed from, and unpadding returns part of its argument: both are how these functions are meant to work",
			"keys share the one curve object; the property is that nobody writes to it",
		},
	})
}

// c27Odd gives keys, numbers and points no caller should, and only asks
// that they are left alone; what comes back is not judged here.
func c27Odd(c *mon.Case) {
	cv := sm2.GetSm2P256V1()
	good, _ := anyKey(c)
	gp := ref.SM2.MulG(good)
	odd := func() *big.Int {
		switch c.IntN(8) {
		case 0:
			return num(0)
		case 1:
			return new(big.Int).Add(bigN, num(int64(c.IntN(5)-1)))
		case 2:
			return new(big.Int).Add(bigN, good)
		case 3:
			return new(big.Int).Neg(good)
		case 4:
			return new(big.Int).SetBytes(c.Bytes(40))
		case 5:
			return new(big.Int).Lsh(bigOne, uint(200+c.IntN(120)))
		case 6:
			return add(bigP, int64(c.IntN(3)-1))
		}
		return new(big.Int).Rsh(new(big.Int).Lsh(good, 256), 256) // spare words
	}
	k := &sm2.PrivateKey{D: odd(), Curve: cv}
	e := &sm2.PrivateKey{D: odd(), Curve: cv}
	p := &sm2.PublicKey{X: cp(gp.X), Y: cp(gp.Y), Curve: cv}
	q := &sm2.PublicKey{X: cp(gp.X), Y: cp(gp.Y), Curve: cv}
	switch c.IntN(4) {
	case 0:
		p.X.Add(p.X, bigP)
	case 1:
		p.Y.Sub(p.Y, bigP)
	case 2:
		p.X, p.Y = odd(), odd()
	}
	good2 := gmPriv(good)
	r, s := odd(), odd()
	id, msg := c.Bytes(c.IntN(30)), c.Bytes(c.IntN(100))
	ct := refEncrypt(c, gp, append(msg, 1), nil, true)
	sig := ref.SigDER(r, s)
	tag := c.Bytes(c.IntN(40))
	state := func() string {
		return dump([]any{k.D, e.D, p.X, p.Y, q.X, q.Y, good2.D, r, s, id, msg, ct, sig, tag, cv.Params(), cv.A})
	}
	calls := map[string]func(){
		"Sign":                func() { sm2.Sign(k, id, msg) },
		"SignToRS":            func() { sm2.SignToRS(k, id, msg) },
		"Verify":              func() { sm2.Verify(p, id, msg, sig) },
		"VerifyByRS":          func() { sm2.VerifyByRS(p, id, msg, r, s) },
		"VerifyByRS good key": func() { sm2.VerifyByRS(q, id, msg, r, s) },
		"MarshalSign":         func() { sm2.MarshalSign(r, s) },
		"UnmarshalSign":       func() { sm2.UnmarshalSign(sig) },
		"Encrypt":             func() { sm2.Encrypt(p, msg, sm2.C1C3C2) },
		"Decrypt":             func() { sm2.Decrypt(k, ct, sm2.C1C3C2) },
		"CalculatePubKey":     func() { sm2.CalculatePubKey(k) },
		"GetRawBytes":         func() { k.GetRawBytes(); p.GetRawBytes(); p.GetUnCompressBytes() },
		"key exchange": func() {
			sm2.CalculateKeyWithConfirmation(c.IntN(2) == 0, 128, tag, k, e, id, p, q, id)
		},
		"key exchange, odd ephemeral": func() {
			sm2.CalculateKeyWithConfirmation(false, 128, tag, good2, e, id, q, p, id)
		},
		"Add":            func() { cv.Add(p.X, p.Y, q.X, q.Y) },
		"Double":         func() { cv.Double(p.X, p.Y) },
		"ScalarMult":     func() { cv.ScalarMult(p.X, p.Y, msg) },
		"ScalarBaseMult": func() { cv.ScalarBaseMult(msg) },
		"IsOnCurve":      func() { cv.IsOnCurve(p.X, p.Y) },
	}
	var names []string
	for n := range calls {
		names = append(names, n)
	}
	sort.Strings(names)
	before := state()
	c.Note("d", k.D)
	c.Note("ephemeral", e.D)
	c.Note("x", p.X)
	c.Note("y", p.Y)
	for i := 0; i < 8; i++ {
		n := names[(c.Idx+i*5)%len(names)]
		_, panicked := mon.Panics(calls[n])
		if after := state(); after != before {
			c.Fail("odd argument/"+n, "%s changed what it was given or the curve: %s", n, firstDiff(before, after))
		}
		if panicked {
			c.Ev("odd calls that panic")
		}
		c.Ev("odd arguments left alone")
		c.Distinct(n, k.D.BitLen(), k.D.Sign(), p.X.BitLen(), p.Y.Sign(), panicked)
	}
}
