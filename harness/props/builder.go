package props

import (
	"bytes"
	"encoding/asn1"
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
	"time"

	"github.com/ZZMarquis/gm/cryptobyte"
	cbasn1 "github.com/ZZMarquis/gm/cryptobyte/asn1"

	"vharness/mon"
	"vharness/ref"
)

func init() {
	register(&mon.Prop{
		ID:   "C24",
		Rule: "cases run random builder programs (every operation, nesting, values on their encoding boundaries, invalid values, failing continuations) on growing, pre-filled and fixed builders, with every capacity from zero to the exact size, against a reference encoder; distinct by program",
		Workloads: []mon.Workload{
			{Name: "programs", Quick: 240000, Thorough: 1920000, Run: c24Programs},
			{Name: "fixed", Quick: 48000, Thorough: 384000, Run: c24Fixed},
			{Name: "values", Quick: 72000, Thorough: 576000, Run: c24Values},
			{Name: "bounds", Quick: len(c24Bounds), Thorough: len(c24Bounds), Run: c24Bound},
			{Name: "tags", Quick: 256, Thorough: 256, Run: c24Tags},
			{Name: "panics", Quick: 18000, Thorough: 144000, Run: c24Panics},
		},
		Need: map[string]int64{"program-exact": 8000, "program-error": 1500, "decoded": 8000, "fixed-fits": 3000, "fixed-overflow": 20000, "prefix-overflow": 6, "tag-refused": 8, "foreign-panic": 300, "build-error": 300, "other-builder": 150},
	})
}

// bop is one builder operation, its reference encoding and its decoder.
type bop struct {
	desc string
	run  func(b *cryptobyte.Builder)
	want []byte
	bad  bool
	// read decodes the operation's output from s and says what is wrong.
	read func(s *cryptobyte.String) string
}

func wantBytes(ops []*bop) (b []byte, bad bool) {
	for _, o := range ops {
		b = append(b, o.want...)
		bad = bad || o.bad
	}
	return b, bad
}

func descOf(ops []*bop) string {
	var l []string
	for _, o := range ops {
		l = append(l, o.desc)
	}
	return strings.Join(l, "; ")
}

func runOps(b *cryptobyte.Builder, ops []*bop) {
	for _, o := range ops {
		o.run(b)
	}
}

func readOps(s *cryptobyte.String, ops []*bop) string {
	for _, o := range ops {
		if o.read == nil {
			if !s.Skip(len(o.want)) && len(o.want) > 0 {
				return o.desc + ": the output is too short"
			}
			continue
		}
		if w := o.read(s); w != "" {
			return o.desc + ": " + w
		}
	}
	return ""
}

var edgeInts = func() (l []int64) {
	for _, s := range []uint{0, 7, 8, 15, 16, 23, 24, 31, 32, 39, 40, 47, 48, 55, 56, 62} {
		for d := int64(-1); d <= 1; d++ {
			l = append(l, int64(1)<<s+d, -(int64(1)<<s)+d)
		}
	}
	return append(l, math.MaxInt64, math.MinInt64, math.MaxInt64-1, math.MinInt64+1, 0)
}()

func anyInt64(c *mon.Case) int64 {
	if c.IntN(2) == 0 {
		return edgeInts[c.IntN(len(edgeInts))]
	}
	return int64(c.Uint64()) >> c.IntN(64)
}

func anyUint64(c *mon.Case) uint64 {
	switch c.IntN(3) {
	case 0:
		return uint64(edgeInts[c.IntN(len(edgeInts))])
	case 1:
		return uint64(1)<<c.IntN(64) - uint64(c.IntN(3))
	}
	return c.Uint64() >> c.IntN(64)
}

func anyBig(c *mon.Case) *big.Int {
	var x *big.Int
	switch c.IntN(4) {
	case 0:
		x = num(anyInt64(c))
	case 1:
		x = new(big.Int).Lsh(bigOne, uint(c.IntN(600)))
		x = add(x, int64(c.IntN(3)-1))
	case 2:
		x = new(big.Int).SetBytes(c.Bytes(c.IntN(80)))
	case 3:
		x = new(big.Int).Lsh(bigOne, uint(8*(1+c.IntN(140))-c.IntN(2)))
		x = add(x, int64(c.IntN(3)-1))
	}
	if c.IntN(2) == 0 {
		x.Neg(x)
	}
	return x
}

// oidContent is the reference content of an OBJECT IDENTIFIER.
func oidContent(o asn1.ObjectIdentifier) []byte {
	b128 := func(x *big.Int) []byte {
		if x.Sign() == 0 {
			return []byte{0}
		}
		var t []byte
		for y := cp(x); y.Sign() > 0; y.Rsh(y, 7) {
			v := byte(y.Uint64() & 0x7f)
			if len(t) > 0 {
				v |= 0x80
			}
			t = append([]byte{v}, t...)
		}
		return t
	}
	first := add(num(int64(o[1])), int64(o[0])*40)
	b := b128(first)
	for _, v := range o[2:] {
		b = append(b, b128(num(int64(v)))...)
	}
	return b
}

func validOID(o asn1.ObjectIdentifier) bool {
	if len(o) < 2 || o[0] < 0 || o[0] > 2 || o[0] < 2 && o[1] >= 40 {
		return false
	}
	for _, v := range o {
		if v < 0 {
			return false
		}
	}
	return true
}

func anyArcs(c *mon.Case) asn1.ObjectIdentifier {
	arc := func() int {
		switch c.IntN(5) {
		case 0:
			return 1<<(7*c.IntN((strconv.IntSize+6)/7-1)) - c.IntN(2)
		case 1:
			return int(c.Uint64() >> (1 + c.IntN(63)) & math.MaxInt)
		case 2:
			return []int{math.MaxInt32, math.MaxInt, math.MaxInt/2 + 1, 1 << (strconv.IntSize / 2)}[c.IntN(4)] - c.IntN(3)
		}
		return c.IntN(200)
	}
	o := asn1.ObjectIdentifier{c.IntN(3)}
	switch {
	case o[0] < 2:
		o = append(o, c.IntN(40))
	case c.IntN(3) == 0:
		o = append(o, []int{math.MaxInt32 - 80, math.MaxInt - 80, 1 << (strconv.IntSize/2 + 3)}[c.IntN(3)]-c.IntN(2))
	default:
		o = append(o, c.IntN(300))
	}
	for i := c.IntN(8); i > 0; i-- {
		o = append(o, arc())
	}
	return o
}

// badOID has no encoding.
func badOID(c *mon.Case) asn1.ObjectIdentifier {
	l := []asn1.ObjectIdentifier{nil, {}, {1}, {3, 1}, {3, 1, 2}, {0, 40}, {1, 40, 3}, {1, 2, -1}, {-1, 2}, {1, -2, 3}, {2, -1}, {2, 5, math.MinInt}, {math.MaxInt, 1}, {1, math.MaxInt}}
	if strconv.IntSize == 64 { // the sum of the first two numbers has no room
		l = append(l, asn1.ObjectIdentifier{2, math.MaxInt}, asn1.ObjectIdentifier{2, math.MaxInt - 79, 3}, asn1.ObjectIdentifier{2, math.MaxInt - 1})
	}
	return l[c.IntN(len(l))]
}

func anyGTime(c *mon.Case) time.Time {
	zones := []*time.Location{time.UTC, time.FixedZone("", 8*3600), time.FixedZone("", -12*3600), time.FixedZone("", 14*3600), time.FixedZone("lmt", 8*3600+5*60+43), time.FixedZone("", -(3*3600 + 30*60 + 52)), time.FixedZone("", 1)}
	t := time.Date(c.IntN(10000), time.Month(1+c.IntN(12)), 1+c.IntN(31), c.IntN(24), c.IntN(60), c.IntN(60), 0, time.UTC)
	if c.IntN(4) == 0 {
		t = []time.Time{time.Date(0, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(9999, 12, 31, 23, 59, 59, 0, time.UTC), time.Date(2000, 2, 29, 23, 59, 59, 0, time.UTC), time.Date(1970, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2050, 1, 1, 0, 0, 0, 0, time.UTC)}[c.IntN(5)]
	}
	return t.In(zones[c.IntN(len(zones))])
}

func gtime(t time.Time) []byte {
	u := t.UTC()
	return []byte(fmt.Sprintf("%04d%02d%02d%02d%02d%02dZ", u.Year(), u.Month(), u.Day(), u.Hour(), u.Minute(), u.Second()))
}

// keep returns data for a builder call and hides a later change of it.
func dataOf(c *mon.Case, max int) []byte {
	n := anyLen(c, max)
	if n == 0 && c.IntN(2) == 0 {
		return nil
	}
	return c.Bytes(n)
}

var lowTags = []byte{0x01, 0x02, 0x04, 0x05, 0x30, 0x31, 0x0c, 0x13, 0x16, 0x18, 0x80, 0x81, 0xa0, 0xa3, 0x1e, 0x9e, 0x00, 0xde, 0x60, 0xfe, 0x24}

type errMarshaler struct {
	ops []*bop
	err error
}

func (m *errMarshaler) Marshal(b *cryptobyte.Builder) error {
	runOps(b, m.ops)
	return m.err
}

var errPlanned = errors.New("planned")

type asn1Struct struct {
	A int
	B []byte
	C asn1.ObjectIdentifier
	D bool
}

// anyOp draws one operation; bads allows operations that must fail.
func anyOp(c *mon.Case, depth int, bads bool) *bop {
	k := c.IntN(26)
	if depth <= 0 && k >= 19 {
		k = c.IntN(19)
	}
	bad := bads && c.IntN(12) == 0
	switch k {
	case 0:
		v := uint8(c.Uint32())
		return &bop{desc: fmt.Sprintf("u8 %#x", v), run: func(b *cryptobyte.Builder) { b.AddUint8(v) }, want: []byte{v}, read: func(s *cryptobyte.String) string {
			var g uint8
			if !s.ReadUint8(&g) || g != v {
				return fmt.Sprintf("read %#x", g)
			}
			return ""
		}}
	case 1:
		v := uint16(anyUint64(c))
		return &bop{desc: fmt.Sprintf("u16 %#x", v), run: func(b *cryptobyte.Builder) { b.AddUint16(v) }, want: []byte{byte(v >> 8), byte(v)}, read: func(s *cryptobyte.String) string {
			var g uint16
			if !s.ReadUint16(&g) || g != v {
				return fmt.Sprintf("read %#x", g)
			}
			return ""
		}}
	case 2:
		v := uint32(anyUint64(c)) // the documented truncation included
		return &bop{desc: fmt.Sprintf("u24 %#x", v), run: func(b *cryptobyte.Builder) { b.AddUint24(v) }, want: []byte{byte(v >> 16), byte(v >> 8), byte(v)}, read: func(s *cryptobyte.String) string {
			var g uint32
			if !s.ReadUint24(&g) || g != v&0xffffff {
				return fmt.Sprintf("read %#x", g)
			}
			return ""
		}}
	case 3:
		v := uint32(anyUint64(c))
		return &bop{desc: fmt.Sprintf("u32 %#x", v), run: func(b *cryptobyte.Builder) { b.AddUint32(v) }, want: []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}, read: func(s *cryptobyte.String) string {
			var g uint32
			if !s.ReadUint32(&g) || g != v {
				return fmt.Sprintf("read %#x", g)
			}
			return ""
		}}
	case 4, 5:
		v := dataOf(c, 300)
		return &bop{desc: fmt.Sprintf("bytes %d", len(v)), run: func(b *cryptobyte.Builder) {
			t := clone(v)
			b.AddBytes(t)
			for i := range t {
				t[i] ^= 0x55 // the builder must have taken a copy
			}
		}, want: v, read: func(s *cryptobyte.String) string {
			g := make([]byte, len(v))
			if len(v) > 0 && !s.CopyBytes(g) || !bytes.Equal(g, v) {
				return fmt.Sprintf("read %x", g)
			}
			return ""
		}}
	case 6:
		v := anyInt64(c)
		return &bop{desc: fmt.Sprintf("int %d", v), run: func(b *cryptobyte.Builder) { b.AddASN1Int64(v) }, want: ref.DERInt(num(v)), read: func(s *cryptobyte.String) string {
			var g int64
			if !s.ReadASN1Integer(&g) || g != v {
				return fmt.Sprintf("read %d", g)
			}
			return ""
		}}
	case 7:
		v := anyInt64(c)
		return &bop{desc: fmt.Sprintf("enum %d", v), run: func(b *cryptobyte.Builder) { b.AddASN1Enum(v) }, want: ref.TLV(10, ref.IntBytes(num(v))), read: func(s *cryptobyte.String) string {
			var g int
			if int64(int(v)) != v { // no room for it here
				t := *s
				if t.ReadASN1Enum(&g) {
					return fmt.Sprintf("read %d into %d bits", g, strconv.IntSize)
				}
				s.SkipASN1(cbasn1.ENUM)
				return ""
			}
			if !s.ReadASN1Enum(&g) || int64(g) != v {
				return fmt.Sprintf("read %d", g)
			}
			return ""
		}}
	case 8:
		v := anyUint64(c)
		return &bop{desc: fmt.Sprintf("uint %d", v), run: func(b *cryptobyte.Builder) { b.AddASN1Uint64(v) }, want: ref.DERInt(new(big.Int).SetUint64(v)), read: func(s *cryptobyte.String) string {
			var g uint64
			if !s.ReadASN1Integer(&g) || g != v {
				return fmt.Sprintf("read %d", g)
			}
			return ""
		}}
	case 9, 10:
		v := anyBig(c)
		return &bop{desc: fmt.Sprintf("big %x", v), run: func(b *cryptobyte.Builder) {
			t := cp(v)
			b.AddASN1BigInt(t)
			if t.Cmp(v) != 0 {
				panic(fmt.Sprintf("the integer %x was changed to %x", v, t))
			}
		}, want: ref.DERInt(v), read: func(s *cryptobyte.String) string {
			g := num(77)
			if !s.ReadASN1Integer(g) || g.Cmp(v) != 0 {
				return fmt.Sprintf("read %x", g)
			}
			return ""
		}}
	case 11:
		v := dataOf(c, 300)
		return &bop{desc: fmt.Sprintf("octets %d", len(v)), run: func(b *cryptobyte.Builder) { b.AddASN1OctetString(v) }, want: ref.TLV(4, v), read: func(s *cryptobyte.String) string {
			var g []byte
			if !s.ReadASN1Bytes(&g, cbasn1.OCTET_STRING) || !bytes.Equal(g, v) {
				return fmt.Sprintf("read %x", g)
			}
			return ""
		}}
	case 12:
		v := anyGTime(c)
		if bad {
			v = time.Date([]int{-1, 10000, 123456, -9999}[c.IntN(4)], 3, 4, 5, 6, 7, 0, time.UTC)
		}
		u := v.UTC().Year()
		return &bop{desc: fmt.Sprintf("time %v", v), bad: u < 0 || u > 9999, run: func(b *cryptobyte.Builder) { b.AddASN1GeneralizedTime(v) }, want: ref.TLV(0x18, gtime(v)), read: func(s *cryptobyte.String) string {
			var g time.Time
			if !s.ReadASN1GeneralizedTime(&g) || !g.Equal(v) {
				return fmt.Sprintf("read %v", g)
			}
			return ""
		}}
	case 13:
		v := dataOf(c, 300)
		return &bop{desc: fmt.Sprintf("bits %d", len(v)), run: func(b *cryptobyte.Builder) { b.AddASN1BitString(v) }, want: ref.TLV(3, []byte{0}, v), read: func(s *cryptobyte.String) string {
			var g []byte
			if !s.ReadASN1BitStringAsBytes(&g) || !bytes.Equal(g, v) {
				return fmt.Sprintf("read %x", g)
			}
			return ""
		}}
	case 14, 15:
		v := anyArcs(c)
		if bad {
			v = badOID(c)
			return &bop{desc: fmt.Sprintf("oid %v", v), bad: true, run: func(b *cryptobyte.Builder) { b.AddASN1ObjectIdentifier(v) }}
		}
		return &bop{desc: fmt.Sprintf("oid %v", v), run: func(b *cryptobyte.Builder) { b.AddASN1ObjectIdentifier(v) }, want: ref.TLV(6, oidContent(v)), read: func(s *cryptobyte.String) string {
			var g asn1.ObjectIdentifier
			for i, a := range v {
				if a > math.MaxInt32 || i == 1 && v[0] == 2 && a > math.MaxInt32-80 {
					// The reader takes numbers of up to 31 bits.
					var raw cryptobyte.String
					if !s.ReadASN1(&raw, cbasn1.OBJECT_IDENTIFIER) || !bytes.Equal(raw, oidContent(v)) {
						return fmt.Sprintf("read %x", []byte(raw))
					}
					return ""
				}
			}
			if !s.ReadASN1ObjectIdentifier(&g) || !g.Equal(v) {
				return fmt.Sprintf("read %v", g)
			}
			return ""
		}}
	case 16:
		v := c.IntN(2) == 0
		w := []byte{1, 1, 0}
		if v {
			w[2] = 0xff
		}
		return &bop{desc: fmt.Sprintf("bool %v", v), run: func(b *cryptobyte.Builder) { b.AddASN1Boolean(v) }, want: w, read: func(s *cryptobyte.String) string {
			g := !v
			if !s.ReadASN1Boolean(&g) || g != v {
				return fmt.Sprintf("read %v", g)
			}
			return ""
		}}
	case 17:
		return &bop{desc: "null", run: func(b *cryptobyte.Builder) { b.AddASN1NULL() }, want: []byte{5, 0}, read: func(s *cryptobyte.String) string {
			var g cryptobyte.String
			if !s.ReadASN1(&g, cbasn1.NULL) || len(g) != 0 {
				return "not read back"
			}
			return ""
		}}
	case 18:
		if bad {
			v := []any{make(chan int), func() {}, map[int]int{1: 1}, 1.5, nil}[c.IntN(5)]
			return &bop{desc: fmt.Sprintf("marshal %T", v), bad: true, run: func(b *cryptobyte.Builder) { b.MarshalASN1(v) }}
		}
		var v any
		switch c.IntN(4) {
		case 0:
			v = int(anyInt64(c))
		case 1:
			v = dataOf(c, 200)
		case 2:
			v = asn1Struct{int(anyInt64(c)), c.Bytes(c.IntN(200)), anyArcs(c), c.IntN(2) == 0}
		case 3:
			v = "text"
		}
		w, err := asn1.Marshal(v)
		if err != nil {
			panic(err)
		}
		return &bop{desc: fmt.Sprintf("marshal %T %d", v, len(w)), run: func(b *cryptobyte.Builder) { b.MarshalASN1(v) }, want: w, read: func(s *cryptobyte.String) string {
			var g cryptobyte.String
			var t cbasn1.Tag
			if !s.ReadAnyASN1Element(&g, &t) || !bytes.Equal(g, w) || byte(t) != w[0] {
				return fmt.Sprintf("read %x", []byte(g))
			}
			return ""
		}}
	case 19, 20, 21:
		tag := lowTags[c.IntN(len(lowTags))]
		if bad && c.IntN(2) == 0 {
			tag |= 0x1f
			return &bop{desc: fmt.Sprintf("asn1 tag %#x", tag), bad: true, run: func(b *cryptobyte.Builder) { b.AddASN1(cbasn1.Tag(tag), func(*cryptobyte.Builder) {}) }}
		}
		ops := anyOps(c, depth-1, bads, 5)
		w, kb := wantBytes(ops)
		return &bop{desc: fmt.Sprintf("asn1 %#x {%s}", tag, descOf(ops)), bad: kb, run: func(b *cryptobyte.Builder) {
			b.AddASN1(cbasn1.Tag(tag), func(k *cryptobyte.Builder) { runOps(k, ops) })
		}, want: ref.TLV(tag, w), read: func(s *cryptobyte.String) string {
			var g cryptobyte.String
			if !s.ReadASN1(&g, cbasn1.Tag(tag)) || !bytes.Equal(g, w) {
				return fmt.Sprintf("read %s", hexs(g))
			}
			if e := readOps(&g, ops); e != "" {
				return e
			}
			if !g.Empty() {
				return "left over"
			}
			return ""
		}}
	case 22, 23, 24:
		n := 1 + c.IntN(4)
		ops := anyOps(c, depth-1, bads, 5)
		w, kb := wantBytes(ops)
		over := n == 1 && len(w) > 255 || n == 2 && len(w) > 65535
		var head []byte
		for i := n - 1; i >= 0; i-- {
			head = append(head, byte(len(w)>>(8*i)))
		}
		return &bop{desc: fmt.Sprintf("prefix%d {%s}", n, descOf(ops)), bad: kb || over, run: func(b *cryptobyte.Builder) {
			addPrefixed(b, n, func(k *cryptobyte.Builder) { runOps(k, ops) })
		}, want: append(head, w...), read: func(s *cryptobyte.String) string {
			var g cryptobyte.String
			switch n {
			case 1:
				if !s.ReadUint8LengthPrefixed(&g) {
					return "not read back"
				}
			case 2:
				if !s.ReadUint16LengthPrefixed(&g) {
					return "not read back"
				}
			case 3:
				if !s.ReadUint24LengthPrefixed(&g) {
					return "not read back"
				}
			case 4:
				var l uint32
				if !s.ReadUint32(&l) || !s.ReadBytes((*[]byte)(&g), int(l)) {
					return "not read back"
				}
			}
			if !bytes.Equal(g, w) {
				return fmt.Sprintf("read %s", hexs(g))
			}
			if e := readOps(&g, ops); e != "" {
				return e
			}
			if !g.Empty() {
				return "left over"
			}
			return ""
		}}
	}
	ops := anyOps(c, depth-1, bads, 4)
	w, kb := wantBytes(ops)
	m := &errMarshaler{ops: ops}
	d := "value"
	if bad {
		m.err = errPlanned
		d = "failing value"
	}
	return &bop{desc: fmt.Sprintf("%s {%s}", d, descOf(ops)), bad: kb || bad, run: func(b *cryptobyte.Builder) { b.AddValue(m) }, want: w, read: func(s *cryptobyte.String) string { return readOps(s, ops) }}
}

func addPrefixed(b *cryptobyte.Builder, n int, f cryptobyte.BuilderContinuation) {
	switch n {
	case 1:
		b.AddUint8LengthPrefixed(f)
	case 2:
		b.AddUint16LengthPrefixed(f)
	case 3:
		b.AddUint24LengthPrefixed(f)
	case 4:
		b.AddUint32LengthPrefixed(f)
	}
}

func anyOps(c *mon.Case, depth int, bads bool, max int) []*bop {
	var l []*bop
	for i := c.IntN(max + 1); i > 0; i-- {
		l = append(l, anyOp(c, depth, bads))
	}
	return l
}

// finish checks Bytes and BytesOrPanic of a finished builder.
func finish(c *mon.Case, b *cryptobyte.Builder, want []byte, bad bool) []byte {
	got, err := b.Bytes()
	if bad {
		if err == nil {
			c.Fail("no-error", "the program must fail, but gives %s", hexs(got))
		}
		c.Check(got == nil, "bytes-with-error", "bytes %s with error %v", hexs(got), err)
		_, ok := mon.Panics(func() { b.BytesOrPanic() })
		c.Check(ok, "no-panic", "BytesOrPanic does not panic after %v", err)
		return nil
	}
	c.Check(err == nil, "error", "the program failed: %v", err)
	same(c, "bytes", got, want, "program output")
	same(c, "bytes-or-panic", b.BytesOrPanic(), want, "BytesOrPanic output")
	return got
}

func c24Programs(c *mon.Case) {
	bads := c.IntN(3) == 0
	ops := anyOps(c, 4, bads, 8)
	c.Note("program", descOf(ops))
	var b *cryptobyte.Builder
	var pre []byte
	var f *mon.Frozen
	kind := c.IntN(4)
	switch kind {
	case 0:
		b = new(cryptobyte.Builder)
	case 1:
		b = cryptobyte.NewBuilder(nil)
	case 2:
		// a pre-filled buffer; its spare capacity belongs to the builder
		pre = c.Bytes(c.IntN(40))
		buf := append(make([]byte, 0, len(pre)+c.IntN(100)), pre...)
		b = cryptobyte.NewBuilder(buf)
	case 3:
		// a pre-filled buffer without spare capacity inside a larger array
		f = c.Freeze(c.Bytes(c.IntN(40)))
		pre = clone(f.B)
		b = cryptobyte.NewBuilder(f.B[:len(f.B):len(f.B)])
	}
	acc := clone(pre)
	bad := false
	for i, o := range ops {
		o.run(b)
		acc = append(acc, o.want...)
		bad = bad || o.bad
		if c.IntN(3) == 0 {
			c.Note("after", i)
			finish(c, b, acc, bad)
		}
	}
	got := finish(c, b, acc, bad)
	if f != nil {
		c.Check(f.Changed() == "", "outside", "the caller's array: %s", f.Changed())
	}
	if bad {
		c.Ev("program-error")
		return
	}
	c.Ev("program-exact")
	c.Distinct(descOf(ops))
	// decoding gives the values back
	g := clone(got)
	s := cryptobyte.String(g)
	if len(pre) > 0 {
		c.Check(s.Skip(len(pre)), "decode", "the prefix is missing")
	}
	if w := readOps(&s, ops); w != "" {
		c.Fail("decode", "%s", w)
	}
	c.Check(s.Empty(), "decode", "%d bytes left over", len(s))
	same(c, "decode", g, got, "output after decoding")
	c.Ev("decoded")
	if len(ops) > 2 {
		c.Sample("%d ops, %d bytes exact and decoded: %.120s", len(ops), len(got), descOf(ops))
	}
}

// fixedRun runs the program on a fixed builder of the given capacity and
// checks result, place and surroundings.
func fixedRun(c *mon.Case, ops []*bop, pre []byte, want []byte, bad bool, capacity int) {
	const guard = 48
	arr := bytes.Repeat([]byte{0xa5}, guard+capacity+guard)
	buf := arr[guard : guard+len(pre) : guard+capacity]
	copy(buf, pre)
	b := cryptobyte.NewFixedBuilder(buf)
	c.Note("capacity", capacity)
	runOps(b, ops)
	total := len(pre) + len(want)
	got := finish(c, b, append(clone(pre), want...), bad || total > capacity)
	for i := 0; i < guard; i++ {
		if arr[i] != 0xa5 || arr[guard+capacity+i] != 0xa5 {
			c.Fail("outside", "memory around the fixed buffer was written")
		}
	}
	same(c, "prefill", arr[guard:guard+len(pre)], pre, "pre-filled part of the fixed buffer")
	if got != nil {
		if len(got) > 0 {
			c.Check(&got[0] == &arr[guard], "moved", "the result is not in the fixed buffer")
		}
		c.Ev("fixed-fits")
	} else if total > capacity && !bad {
		c.Ev("fixed-overflow")
	}
}

func c24Fixed(c *mon.Case) {
	ops := anyOps(c, 3, c.IntN(6) == 0, 5)
	pre := c.Bytes([]int{0, 0, 1, 7}[c.IntN(4)])
	want, bad := wantBytes(ops)
	c.Note("program", descOf(ops))
	c.Note("prefill", pre)
	total := len(pre) + len(want)
	step := 1
	if total > 300 {
		step = total / 150
	}
	for k := len(pre); k < total; k += step {
		fixedRun(c, ops, pre, want, bad, k)
	}
	for _, k := range []int{total - 1, total, total + 1, total + 64} {
		if k >= len(pre) {
			fixedRun(c, ops, pre, want, bad, k)
		}
	}
	c.Distinct(descOf(ops))
}

// c24Values runs single operations, many values each.
func c24Values(c *mon.Case) {
	for i := 0; i < 40; i++ {
		o := anyOp(c, 0, true)
		c.Note("program", o.desc)
		b := new(cryptobyte.Builder)
		o.run(b)
		got := finish(c, b, o.want, o.bad)
		if o.bad {
			c.Ev("value-error")
			continue
		}
		s := cryptobyte.String(got)
		if o.read != nil {
			if w := o.read(&s); w != "" {
				c.Fail("decode", "%s: %s", o.desc, w)
			}
			c.Check(s.Empty(), "decode", "%s: left over", o.desc)
		}
		c.Distinct(o.desc)
		c.Ev("value-exact")
	}
}

type bound struct {
	kind  string // "asn1", "prefix"
	n     int    // prefix bytes
	size  int
	depth int
}

var c24Bounds = func() (l []bound) {
	for _, n := range []int{0, 1, 126, 127, 128, 129, 253, 254, 255, 256, 257, 65533, 65534, 65535, 65536, 65537, 1<<24 - 1, 1 << 24, 1<<24 + 1} {
		for d := 1; d <= 3; d++ {
			l = append(l, bound{"asn1", 0, n, d})
		}
		for p := 1; p <= 4; p++ {
			l = append(l, bound{"prefix", p, n, 1}, bound{"prefix", p, n, 2})
		}
	}
	return l
}()

func c24Bound(c *mon.Case) {
	bd := c24Bounds[c.Idx]
	c.Note("bound", bd)
	data := bytes.Repeat([]byte{0x5a}, bd.size)
	if len(data) > 0 {
		data[0], data[len(data)-1] = 1, 2
	}
	ops := []*bop{{desc: "data", run: func(b *cryptobyte.Builder) { b.AddBytes(data) }, want: data}}
	for i := 0; i < bd.depth; i++ {
		in := ops
		w, bad := wantBytes(in)
		o := &bop{desc: bd.kind}
		if bd.kind == "asn1" {
			o.run = func(b *cryptobyte.Builder) {
				b.AddASN1(cbasn1.SEQUENCE, func(k *cryptobyte.Builder) { runOps(k, in) })
			}
			o.want = ref.TLV(0x30, w)
		} else {
			var h []byte
			for j := bd.n - 1; j >= 0; j-- {
				h = append(h, byte(len(w)>>(8*j)))
			}
			o.run = func(b *cryptobyte.Builder) {
				addPrefixed(b, bd.n, func(k *cryptobyte.Builder) { runOps(k, in) })
			}
			o.want = append(h, w...)
			o.bad = bad || bd.n < 4 && len(w) >= 1<<(8*bd.n)
			if o.bad {
				c.Ev("prefix-overflow")
			}
		}
		o.bad = o.bad || bad
		ops = append([]*bop{}, o)
		if i == 0 {
			// content after the child must follow it
			ops = append(ops, &bop{desc: "tail", run: func(b *cryptobyte.Builder) { b.AddUint16(0xbeef) }, want: []byte{0xbe, 0xef}})
		}
	}
	want, bad := wantBytes(ops)
	b := cryptobyte.NewBuilder(nil)
	runOps(b, ops)
	finish(c, b, want, bad)
	fixedRun(c, ops, nil, want, bad, len(want))
	fixedRun(c, ops, nil, want, bad, len(want)-1)
	fixedRun(c, ops, []byte{9}, want, bad, len(want)+1)
	c.Distinct(c.Idx)
}

// c24Tags walks every identifier octet.
func c24Tags(c *mon.Case) {
	tag := cbasn1.Tag(c.Idx)
	b := cryptobyte.NewBuilder(nil)
	b.AddUint8(7)
	called := false
	b.AddASN1(tag, func(k *cryptobyte.Builder) { called = true; k.AddUint8(1) })
	b.AddUint8(8)
	want := append(append([]byte{7}, ref.TLV(byte(tag), []byte{1})...), 8)
	high := tag&0x1f == 0x1f
	finish(c, b, want, high)
	c.Check(called != high, "continuation", "continuation called: %v", called)
	if high {
		c.Ev("tag-refused")
	}
	c.Check(byte(tag.Constructed()) == byte(tag)|0x20, "tag", "Constructed of %#x is %#x", tag, tag.Constructed())
	c.Check(byte(tag.ContextSpecific()) == byte(tag)|0x80, "tag", "ContextSpecific of %#x is %#x", tag, tag.ContextSpecific())
	c.Distinct(c.Idx)
}

type oddPanic struct{ n int }

// c24Panics lets continuations panic at every depth.
func c24Panics(c *mon.Case) {
	depth := 1 + c.IntN(5)
	before := anyOps(c, 1, false, 3)
	if _, bad := wantBytes(before); bad {
		before = nil // a prefix that overflows
	}
	mode := c.IntN(6)
	c.Note("program", fmt.Sprintf("depth %d mode %d after %s", depth, mode, descOf(before)))
	own := fmt.Errorf("own %d", c.IntN(1000))
	odd := &oddPanic{c.IntN(1000)}
	b := cryptobyte.NewBuilder(nil)
	var parents []*cryptobyte.Builder
	var kinds []bool // which of the nested pieces are sequences
	var nest func(k *cryptobyte.Builder, d int)
	nest = func(k *cryptobyte.Builder, d int) {
		parents = append(parents, k)
		runOps(k, before)
		if d == 0 {
			switch mode {
			case 0:
				panic(cryptobyte.BuildError{Err: own})
			case 1:
				panic(odd)
			case 2:
				// writing to an ancestor while a child is pending
				a := parents[c.IntN(len(parents)-1)]
				anyOp(c, 1, false).run(a)
				a.AddUint8(1)
			case 3:
				k.AddValue(&errMarshaler{err: own})
				k.AddUint8(1)
			case 4, 5:
				// a builder of its own that fails, at the end of a chain
				// of its own, leaves the one it is used in as it is
				in := cryptobyte.NewBuilder(nil)
				var fail func(z *cryptobyte.Builder, d int)
				fail = func(z *cryptobyte.Builder, d int) {
					z.AddUint8(3)
					if d > 0 {
						addPrefixed(z, 1+c.IntN(4), func(y *cryptobyte.Builder) { fail(y, d-1) })
						return
					}
					panic(cryptobyte.BuildError{Err: own})
				}
				r, _ := mon.Panics(func() { fail(in, 1+c.IntN(3)) })
				c.Check(r == nil, "panic", "a build error of a builder used inside a continuation escaped as a panic: %v", r)
				_, err := in.Bytes()
				c.Check(err == own, "build-error", "a builder used inside a continuation: error %v instead of %v", err, own)
				finish(c, in, nil, true)
				if mode == 5 { // and so does one that comes out well
					in = cryptobyte.NewBuilder(nil)
					in.AddUint8LengthPrefixed(func(y *cryptobyte.Builder) { y.AddUint8(4) })
					finish(c, in, []byte{1, 4}, false)
				}
				k.AddUint8(9)
			}
			return
		}
		f := func(x *cryptobyte.Builder) { nest(x, d-1) }
		seq := c.IntN(2) == 0
		kinds = append(kinds, seq)
		if seq {
			k.AddASN1(cbasn1.SEQUENCE, f)
		} else {
			addPrefixed(k, 4, f)
		}
		runOps(k, before)
	}
	r, _ := mon.Panics(func() { nest(b, depth) })
	switch mode {
	case 0, 3:
		c.Check(r == nil, "panic", "a build error escaped as a panic: %v", r)
		_, err := b.Bytes()
		c.Check(errors.Is(err, own), "build-error", "error %v instead of %v", err, own)
		finish(c, b, nil, true)
		c.Ev("build-error")
	case 1:
		c.Check(r == any(odd), "repanic", "a panic with %v came out as %v", odd, r)
		c.Ev("foreign-panic")
	case 4, 5:
		c.Check(r == nil, "panic", "a build error of another builder escaped as a panic: %v", r)
		pre, _ := wantBytes(before)
		want := append(append([]byte{}, pre...), 9)
		for i := len(kinds) - 1; i >= 0; i-- {
			if kinds[i] {
				want = ref.TLV(0x30, want)
			} else {
				want = append(binary.BigEndian.AppendUint32(nil, uint32(len(want))), want...)
			}
			want = append(append(append([]byte{}, pre...), want...), pre...)
		}
		finish(c, b, want, false)
		c.Ev("other-builder")
	case 2:
		_, err := b.Bytes()
		c.Check(r != nil || err != nil, "parent-write", "writing to a builder whose child is pending was silently accepted")
		c.Ev("parent-write")
	}
	c.Distinct(mode, depth, descOf(before))
}
