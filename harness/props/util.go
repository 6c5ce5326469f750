// Package props holds the workloads and oracles, one property per function.
package props

import (
	"bytes"
	"fmt"
	"math/big"
	"sync"

	"github.com/ZZMarquis/gm/sm2"

	"vharness/mon"
	"vharness/ref"
)

var (
	registry []*mon.Prop
	late     []func() // registers what is made of the others
	once     sync.Once
)

func register(p *mon.Prop) { registry = append(registry, p) }

// All returns every property.
func All() []*mon.Prop {
	once.Do(func() {
		for _, f := range late {
			f()
		}
	})
	return registry
}

// Get finds one property.
func Get(id string) *mon.Prop {
	for _, p := range All() {
		if p.ID == id {
			return p
		}
	}
	return nil
}

var (
	bigN   = ref.SM2.N
	bigP   = ref.SM2.P
	bigOne = big.NewInt(1)
)

func num(x int64) *big.Int             { return big.NewInt(x) }
func cp(x *big.Int) *big.Int           { return new(big.Int).Set(x) }
func sub(x *big.Int, y int64) *big.Int { return new(big.Int).Sub(x, big.NewInt(y)) }
func add(x *big.Int, y int64) *big.Int { return new(big.Int).Add(x, big.NewInt(y)) }
func clone(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append([]byte{}, b...)
}

// below returns a uniform integer in [0, n).
func below(c *mon.Case, n *big.Int) *big.Int {
	b := c.Bytes((n.BitLen()+7)/8 + 8)
	x := new(big.Int).SetBytes(b)
	return x.Mod(x, n)
}

// scalar returns a random scalar in [1, n-1].
func scalar(c *mon.Case) *big.Int { return add(below(c, sub(bigN, 1)), 1) }

// leading-zero scalars: k such that kG has a short x or y coordinate
var (
	lzMu   sync.Mutex
	lzPool = map[string][]*big.Int{}
)

// lzScalar finds a scalar whose point has a coordinate with leading zero
// bytes (which: "x" or "y"), by a random walk of the case's own stream.
func lzScalar(c *mon.Case, which string) *big.Int {
	k := scalar(c)
	p := ref.SM2.MulG(k)
	for i := 0; i < 20000; i++ {
		v := p.X
		if which == "y" {
			v = p.Y
		}
		if v.BitLen() <= 248 {
			return k
		}
		k = add(k, 1)
		if k.Cmp(bigN) >= 0 {
			k = num(1)
		}
		p = ref.SM2.Add(p, ref.SM2.G)
		if p.Inf {
			p = ref.SM2.G
			k = num(1)
		}
	}
	panic("no leading-zero coordinate found")
}

var keyKinds = []string{"rand", "one", "two", "three", "n-2", "n-3", "half", "pow2", "short", "veryshort", "lzx", "lzy", "allones"}

// keyOf returns a private scalar of the given kind in [1, n-2].
func keyOf(c *mon.Case, kind string) *big.Int {
	switch kind {
	case "one":
		return num(1)
	case "two":
		return num(2)
	case "three":
		return num(3)
	case "n-2":
		return sub(bigN, 2)
	case "n-3":
		return sub(bigN, 3)
	case "half":
		return new(big.Int).Rsh(bigN, 1)
	case "pow2":
		return new(big.Int).Lsh(bigOne, uint(c.IntN(255)))
	case "short":
		return add(below(c, new(big.Int).Lsh(bigOne, uint(8*(1+c.IntN(31))))), 1)
	case "veryshort":
		return num(int64(1 + c.IntN(300)))
	case "lzx":
		k := lzScalar(c, "x")
		if k.Cmp(sub(bigN, 2)) > 0 {
			return num(1)
		}
		return k
	case "lzy":
		k := lzScalar(c, "y")
		if k.Cmp(sub(bigN, 2)) > 0 {
			return num(1)
		}
		return k
	case "allones":
		return new(big.Int).Sub(new(big.Int).Lsh(bigOne, uint(8*(1+c.IntN(31)))), bigOne)
	}
	return add(below(c, sub(bigN, 2)), 1)
}

// anyKey draws a kind, with plain random keys half of the time.
func anyKey(c *mon.Case) (*big.Int, string) {
	kind := "rand"
	if c.IntN(2) == 0 {
		kind = keyKinds[c.IntN(len(keyKinds))]
	}
	return keyOf(c, kind), kind
}

func gmPriv(d *big.Int) *sm2.PrivateKey {
	return &sm2.PrivateKey{D: cp(d), Curve: sm2.GetSm2P256V1()}
}

func gmPub(p ref.Pt) *sm2.PublicKey {
	if p.Inf {
		return &sm2.PublicKey{X: new(big.Int), Y: new(big.Int), Curve: sm2.GetSm2P256V1()}
	}
	return &sm2.PublicKey{X: cp(p.X), Y: cp(p.Y), Curve: sm2.GetSm2P256V1()}
}

// slotObj copies v into the object that an earlier call of this case with the
// same slot used, half of the time.
func slotObj[T any](c *mon.Case, slot string, v *T) *T {
	old, _ := c.Slots[slot].(*T)
	if old == nil || c.IntN(2) == 0 {
		setSlot(c, slot, v)
		return v
	}
	if old != v {
		*old = *v
		c.Ev("reused-object")
	}
	return old
}

// slotPriv is gmPriv in an object that an earlier call of this case with the
// same slot used for another key, half of the time: a key is its value at the
// time of the call, not the identity of the structure.
func slotPriv(c *mon.Case, slot string, d *big.Int) *sm2.PrivateKey {
	old, _ := c.Slots[slot].(*sm2.PrivateKey)
	if old == nil || c.IntN(2) == 0 {
		p := gmPriv(d)
		setSlot(c, slot, p)
		return p
	}
	if c.IntN(2) == 0 {
		old.D.Set(d)
	} else {
		old.D = cp(d)
	}
	c.Ev("reused-key-object")
	return old
}

func slotPub(c *mon.Case, slot string, p ref.Pt) *sm2.PublicKey {
	old, _ := c.Slots[slot].(*sm2.PublicKey)
	if old == nil || c.IntN(2) == 0 {
		q := gmPub(p)
		setSlot(c, slot, q)
		return q
	}
	x, y := new(big.Int), new(big.Int)
	if !p.Inf {
		x, y = p.X, p.Y
	}
	if c.IntN(2) == 0 {
		old.X.Set(x)
		old.Y.Set(y)
	} else {
		old.X, old.Y = cp(x), cp(y)
	}
	c.Ev("reused-key-object")
	return old
}

func setSlot(c *mon.Case, slot string, v any) {
	if c.Slots == nil {
		c.Slots = map[string]any{}
	}
	c.Slots[slot] = v
}

func ptOf(p *sm2.PublicKey) ref.Pt {
	if p.X.Sign() == 0 && p.Y.Sign() == 0 {
		return ref.Pt{Inf: true}
	}
	return ref.Pt{X: cp(p.X), Y: cp(p.Y)}
}

// ids returns a user id of varied shape (nil included).
func anyID(c *mon.Case) []byte {
	switch c.IntN(10) {
	case 0:
		return nil
	case 1:
		return []byte{}
	case 2:
		return clone(ref.DefaultID)
	case 3:
		return c.Bytes(1 + c.IntN(3))
	case 4:
		return c.Bytes(30 + c.IntN(4)) // bit length around 256
	case 5:
		return c.Bytes(250 + c.IntN(20))
	case 6:
		return c.Bytes(8191 - c.IntN(3))
	case 7:
		return c.Bytes(4094 + c.IntN(5)) // bit length around 2^15
	case 8:
		return make([]byte, c.IntN(40))
	}
	return c.Bytes(c.IntN(80))
}

var idLens = []int{1, 2, 8, 16, 31, 32, 63, 64, 65, 128, 255, 256, 1024, 4096, 8160, 8190, 8191}

// edgeID is an id of a length at which one might be cut or padded.
func edgeID(c *mon.Case) []byte { return c.Bytes(idLens[c.IntN(len(idLens))]) }

var msgLens = []int{0, 1, 2, 3, 4, 15, 16, 17, 31, 32, 33, 55, 56, 57, 63, 64, 65, 119, 120, 127, 128, 129}

func anyLen(c *mon.Case, max int) int {
	switch c.IntN(4) {
	case 0:
		n := msgLens[c.IntN(len(msgLens))]
		if n <= max {
			return n
		}
	case 1:
		m := max
		if m > 200 {
			m = 200
		}
		return c.IntN(m + 1)
	}
	return c.IntN(max + 1)
}

func hexs(b []byte) string {
	if len(b) > 80 {
		return fmt.Sprintf("%x...(%d)", b[:80], len(b))
	}
	return fmt.Sprintf("%x", b)
}

func same(c *mon.Case, key string, got, want []byte, what string, a ...any) {
	if !bytes.Equal(got, want) {
		c.Fail(key, "%s: got %s, want %s", fmt.Sprintf(what, a...), hexs(got), hexs(want))
	}
}

// frozenInts snapshots big integers.
type frozenInts struct {
	names []string
	ptrs  []*big.Int
	vals  []*big.Int
}

func (f *frozenInts) add(name string, x *big.Int) {
	if x == nil {
		return
	}
	f.names = append(f.names, name)
	f.ptrs = append(f.ptrs, x)
	f.vals = append(f.vals, cp(x))
}

func (f *frozenInts) changed() string {
	for i, p := range f.ptrs {
		if p.Cmp(f.vals[i]) != 0 {
			return fmt.Sprintf("%s changed from %x to %x", f.names[i], f.vals[i], p)
		}
	}
	return ""
}

// curveSnapshot freezes the shared curve parameters.
func curveSnapshot() *frozenInts {
	f := &frozenInts{}
	cv := sm2.GetSm2P256V1()
	f.add("curve P", cv.P)
	f.add("curve A", cv.A)
	f.add("curve B", cv.B)
	f.add("curve N", cv.N)
	f.add("curve Gx", cv.Gx)
	f.add("curve Gy", cv.Gy)
	return f
}
