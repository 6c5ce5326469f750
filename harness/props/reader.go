package props

import (
	"bytes"
	"encoding/asn1"
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
	"time"

	"github.com/ZZMarquis/gm/cryptobyte"
	cbasn1 "github.com/ZZMarquis/gm/cryptobyte/asn1"

	"vharness/mon"
	"vharness/ref"
)

func init() {
	register(&mon.Prop{
		ID:   "C25",
		Rule: "cases run every read operation on all inputs of up to two bytes, on all contents of up to two bytes under the operation's tag, on every cut and mutation of encodings, and random read sequences over hostile inputs, against reference decoders; inputs sit inside larger arrays whose next bytes would continue the encoding; distinct by input",
		Workloads: []mon.Workload{
			{Name: "short", Quick: 260, Thorough: 260, Run: c25Short},
			{Name: "content", Quick: 65 * len(readOpsOf), Thorough: 65 * len(readOpsOf), Run: c25Content},
			{Name: "lengths", Quick: 400, Thorough: 4000, Run: c25Lengths},
			{Name: "cuts", Quick: 7500, Thorough: 60000, Run: c25Cuts},
			{Name: "hostile", Quick: 20000, Thorough: 200000, Run: c25Hostile},
			{Name: "sequences", Quick: 50000, Thorough: 500000, Run: c25Sequences},
			{Name: "times", Quick: 5000, Thorough: 40000, Run: c25Times},
		},
		Need: map[string]int64{"read": 100000, "refused": 1000000, "long-form": 100, "time-read": 1000, "time-refused": 1000},
	})
}

// verdicts of a reference decoder
const (
	no    = 0 // must be refused
	yes   = 1 // must be read
	maybe = 2 // may be refused; the value must be right if it is not
)

type rop struct {
	desc string
	tag  byte // a tag this operation looks for, 0 if none
	run  func(s *cryptobyte.String) (bool, string)
	ref  func(b []byte) (verdict int, val string, used int)
}

// refTLV is the reference reader of one DER element header.
func refTLV(b []byte) (tag byte, head, total int, ok bool) {
	if len(b) < 2 || b[0]&0x1f == 0x1f {
		return
	}
	tag, head = b[0], 2
	n := new(big.Int)
	if b[1] < 0x80 {
		n.SetInt64(int64(b[1]))
	} else {
		k := int(b[1] & 0x7f)
		if k == 0 || k > 4 || len(b) < 2+k || b[2] == 0 || k == 1 && b[2] < 0x80 {
			return
		}
		n.SetBytes(b[2 : 2+k])
		head += k
	}
	if n.Cmp(num(int64(len(b)-head))) > 0 {
		return
	}
	return tag, head, head + int(n.Int64()), true
}

func refContent(b []byte, want byte) (content []byte, used int, ok bool) {
	tag, h, t, ok := refTLV(b)
	if !ok || tag != want {
		return nil, 0, false
	}
	return b[h:t], t, true
}

func refInt(x []byte) (*big.Int, bool) {
	if len(x) == 0 || len(x) > 1 && (x[0] == 0 && x[1] < 0x80 || x[0] == 0xff && x[1] >= 0x80) {
		return nil, false
	}
	v := new(big.Int).SetBytes(x)
	if x[0] >= 0x80 {
		v.Sub(v, new(big.Int).Lsh(bigOne, uint(8*len(x))))
	}
	return v, true
}

func refOID(x []byte) (int, string) {
	if len(x) == 0 {
		return no, ""
	}
	var subs []*big.Int
	v := yes
	for len(x) > 0 {
		if x[0] == 0x80 {
			return no, ""
		}
		n := new(big.Int)
		i := 0
		for {
			if i == len(x) {
				return no, ""
			}
			n.Lsh(n, 7)
			n.Or(n, num(int64(x[i]&0x7f)))
			i++
			if x[i-1] < 0x80 {
				break
			}
		}
		if n.BitLen() > 31 {
			v = maybe
		}
		subs = append(subs, n)
		x = x[i:]
	}
	f := subs[0]
	var l []string
	switch {
	case f.Cmp(num(40)) < 0:
		l = append(l, "0", f.String())
	case f.Cmp(num(80)) < 0:
		l = append(l, "1", sub(f, 40).String())
	default:
		l = append(l, "2", sub(f, 80).String())
	}
	for _, n := range subs[1:] {
		l = append(l, n.String())
	}
	return v, strings.Join(l, ".")
}

func refTime(x []byte) (int, string) {
	digits := func(b []byte) (n int, ok bool) {
		for _, d := range b {
			if d < '0' || d > '9' {
				return 0, false
			}
			n = n*10 + int(d-'0')
		}
		return n, true
	}
	if len(x) < 15 {
		return no, ""
	}
	var f [6]int
	for i, r := range [][2]int{{0, 4}, {4, 6}, {6, 8}, {8, 10}, {10, 12}, {12, 14}} {
		v, ok := digits(x[r[0]:r[1]])
		if !ok {
			return no, ""
		}
		f[i] = v
	}
	if f[1] < 1 || f[1] > 12 || f[2] < 1 || f[3] > 23 || f[4] > 59 || f[5] > 59 {
		return no, ""
	}
	t := time.Date(f[0], time.Month(f[1]), f[2], f[3], f[4], f[5], 0, time.UTC)
	if t.Day() != f[2] {
		return no, ""
	}
	z := x[14:]
	if string(z) == "Z" {
		return yes, fmt.Sprint(t.Unix())
	}
	if len(z) != 5 || z[0] != '+' && z[0] != '-' {
		return no, ""
	}
	h, ok1 := digits(z[1:3])
	m, ok2 := digits(z[3:5])
	if !ok1 || !ok2 || h > 24 || m > 59 {
		return no, ""
	}
	off := time.Duration(h)*time.Hour + time.Duration(m)*time.Minute
	if z[0] == '-' {
		off = -off
	}
	// the standard library's time layout admits zones, DER does not
	return maybe, fmt.Sprint(t.Add(-off).Unix())
}

type namedInt int16

// someInt uses most of the width of an int.
var someInt = int(int64(1<<40) >> (64 - strconv.IntSize))

var (
	min64 = new(big.Int).Neg(new(big.Int).Lsh(bigOne, 63))
)

func inRange(x *big.Int, bits uint, signed bool) bool {
	if !signed {
		return x.Sign() >= 0 && x.BitLen() <= int(bits)
	}
	h := new(big.Int).Lsh(bigOne, bits-1)
	return x.Cmp(h) < 0 && x.Cmp(new(big.Int).Neg(h)) >= 0
}

// intTargets reads into every integer type.
type intTarget struct {
	name   string
	bits   uint
	signed bool
	read   func(f func(out any) bool) (bool, string)
	def    any
	defVal string
}

var intTargets = []intTarget{
	{"int8", 8, true, func(f func(any) bool) (bool, string) { var v int8 = 77; ok := f(&v); return ok, fmt.Sprint(v) }, int8(-3), "-3"},
	{"int16", 16, true, func(f func(any) bool) (bool, string) { var v int16 = 77; ok := f(&v); return ok, fmt.Sprint(v) }, int16(-3), "-3"},
	{"int32", 32, true, func(f func(any) bool) (bool, string) { var v int32 = 77; ok := f(&v); return ok, fmt.Sprint(v) }, int32(5), "5"},
	{"int64", 64, true, func(f func(any) bool) (bool, string) { var v int64 = 77; ok := f(&v); return ok, fmt.Sprint(v) }, int64(-1 << 63), "-9223372036854775808"},
	{"int", strconv.IntSize, true, func(f func(any) bool) (bool, string) { var v int = 77; ok := f(&v); return ok, fmt.Sprint(v) }, someInt, fmt.Sprint(someInt)},
	{"uint8", 8, false, func(f func(any) bool) (bool, string) { var v uint8 = 77; ok := f(&v); return ok, fmt.Sprint(v) }, uint8(200), "200"},
	{"uint16", 16, false, func(f func(any) bool) (bool, string) { var v uint16 = 77; ok := f(&v); return ok, fmt.Sprint(v) }, uint16(9), "9"},
	{"uint32", 32, false, func(f func(any) bool) (bool, string) { var v uint32 = 77; ok := f(&v); return ok, fmt.Sprint(v) }, uint32(0), "0"},
	{"uint64", 64, false, func(f func(any) bool) (bool, string) { var v uint64 = 77; ok := f(&v); return ok, fmt.Sprint(v) }, uint64(1<<64 - 1), "18446744073709551615"},
	{"uint", strconv.IntSize, false, func(f func(any) bool) (bool, string) { var v uint = 77; ok := f(&v); return ok, fmt.Sprint(v) }, uint(7), "7"},
	{"named", 16, true, func(f func(any) bool) (bool, string) {
		var v namedInt = 77
		ok := f(&v)
		return ok, fmt.Sprint(int(v))
	}, namedInt(-30000), "-30000"},
	{"big", 0, true, func(f func(any) bool) (bool, string) {
		v := num(-77)
		ok := f(v)
		return ok, v.String()
	}, new(big.Int).Lsh(num(-5), 200), new(big.Int).Lsh(num(-5), 200).String()},
}

func refIntFor(t intTarget, x []byte) (int, string) {
	v, ok := refInt(x)
	if !ok || t.bits > 0 && !inRange(v, t.bits, t.signed) {
		return no, ""
	}
	return yes, v.String()
}

func tlvOp(desc string, tag byte, run func(s *cryptobyte.String) (bool, string), dec func(x []byte) (int, string)) *rop {
	return &rop{desc: desc, tag: tag, run: run, ref: func(b []byte) (int, string, int) {
		x, used, ok := refContent(b, tag)
		if !ok {
			return no, "", 0
		}
		v, val := dec(x)
		return v, val, used
	}}
}

func lhex(b []byte) string { return fmt.Sprintf("%d:%x", len(b), b) }

func rawDec(x []byte) (int, string) { return yes, lhex(x) }

func uintOp(n int, run func(s *cryptobyte.String) (bool, uint64)) *rop {
	return &rop{desc: fmt.Sprintf("uint%d", 8*n), run: func(s *cryptobyte.String) (bool, string) {
		ok, v := run(s)
		return ok, fmt.Sprint(v)
	}, ref: func(b []byte) (int, string, int) {
		if len(b) < n {
			return no, "", 0
		}
		var v uint64
		for _, x := range b[:n] {
			v = v<<8 | uint64(x)
		}
		return yes, fmt.Sprint(v), n
	}}
}

func prefixOp(n int, run func(s, out *cryptobyte.String) bool) *rop {
	return &rop{desc: fmt.Sprintf("prefixed%d", 8*n), run: func(s *cryptobyte.String) (bool, string) {
		var out cryptobyte.String
		ok := run(s, &out)
		return ok, lhex(out)
	}, ref: refPrefixed(n)}
}

func refPrefixed(n int) func(b []byte) (int, string, int) {
	return func(b []byte) (int, string, int) {
		if len(b) < n {
			return no, "", 0
		}
		var l uint64
		for _, x := range b[:n] {
			l = l<<8 | uint64(x)
		}
		if uint64(len(b)-n) < l {
			return no, "", 0
		}
		return yes, lhex(b[n : n+int(l)]), n + int(l)
	}
}

func lenOps(n int) []*rop {
	refN := func(b []byte) (int, string, int) {
		if n < 0 || n > len(b) {
			return no, "", 0
		}
		return yes, lhex(b[:n]), n
	}
	l := []*rop{
		{desc: fmt.Sprintf("skip %d", n), run: func(s *cryptobyte.String) (bool, string) { return s.Skip(n), "" }, ref: func(b []byte) (int, string, int) {
			v, _, u := refN(b)
			return v, "", u
		}},
		{desc: fmt.Sprintf("bytes %d", n), run: func(s *cryptobyte.String) (bool, string) {
			var out []byte
			ok := s.ReadBytes(&out, n)
			return ok, lhex(out)
		}, ref: refN},
	}
	if n >= 0 && n < 1<<20 {
		l = append(l, &rop{desc: fmt.Sprintf("copy %d", n), run: func(s *cryptobyte.String) (bool, string) {
			w := bytes.Repeat([]byte{0xee}, n+8)
			ok := s.CopyBytes(w[4 : 4+n : 4+n])
			if !bytes.Equal(w[:4], []byte{0xee, 0xee, 0xee, 0xee}) || !bytes.Equal(w[4+n:], []byte{0xee, 0xee, 0xee, 0xee}) {
				return ok, "written outside"
			}
			return ok, lhex(w[4 : 4+n])
		}, ref: refN})
	}
	return l
}

// tagOps are the operations that take a tag.
func tagOps(tag byte) []*rop {
	t := cbasn1.Tag(tag)
	opt := func(f func(x []byte) (int, string), absent string) func(b []byte) (int, string, int) {
		return func(b []byte) (int, string, int) {
			if len(b) == 0 || b[0] != tag {
				return yes, "absent " + absent, 0
			}
			x, used, ok := refContent(b, tag)
			if !ok {
				return no, "", 0
			}
			v, val := f(x)
			return v, "present " + val, used
		}
	}
	pres := func(p bool) string {
		if p {
			return "present "
		}
		return "absent "
	}
	element := func(b []byte) (int, string, int) {
		_, used, ok := refContent(b, tag)
		if !ok {
			return no, "", 0
		}
		return yes, lhex(b[:used]), used
	}
	l := []*rop{
		tlvOp("asn1", tag, func(s *cryptobyte.String) (bool, string) {
			var out cryptobyte.String
			ok := s.ReadASN1(&out, t)
			return ok, lhex(out)
		}, rawDec),
		tlvOp("asn1bytes", tag, func(s *cryptobyte.String) (bool, string) {
			var out []byte
			ok := s.ReadASN1Bytes(&out, t)
			return ok, lhex(out)
		}, rawDec),
		{desc: "element", tag: tag, run: func(s *cryptobyte.String) (bool, string) {
			var out cryptobyte.String
			ok := s.ReadASN1Element(&out, t)
			return ok, lhex(out)
		}, ref: element},
		{desc: "any", tag: tag, run: func(s *cryptobyte.String) (bool, string) {
			var out cryptobyte.String
			var g cbasn1.Tag
			ok := s.ReadAnyASN1(&out, &g)
			return ok, fmt.Sprintf("%#x %s", uint8(g), lhex(out))
		}, ref: func(b []byte) (int, string, int) {
			g, h, n, ok := refTLV(b)
			if !ok {
				return no, "", 0
			}
			return yes, fmt.Sprintf("%#x %s", g, lhex(b[h:n])), n
		}},
		{desc: "anyelement", tag: tag, run: func(s *cryptobyte.String) (bool, string) {
			var out cryptobyte.String
			var g cbasn1.Tag
			ok := s.ReadAnyASN1Element(&out, &g)
			return ok, fmt.Sprintf("%#x %s", uint8(g), lhex(out))
		}, ref: func(b []byte) (int, string, int) {
			g, _, n, ok := refTLV(b)
			if !ok {
				return no, "", 0
			}
			return yes, fmt.Sprintf("%#x %s", g, lhex(b[:n])), n
		}},
		{desc: "peek", tag: tag, run: func(s *cryptobyte.String) (bool, string) {
			return true, fmt.Sprint(s.PeekASN1Tag(t), s.Empty())
		}, ref: func(b []byte) (int, string, int) {
			return yes, fmt.Sprint(len(b) > 0 && b[0] == tag, len(b) == 0), 0
		}},
		tlvOp("skip", tag, func(s *cryptobyte.String) (bool, string) { return s.SkipASN1(t), "" }, func([]byte) (int, string) { return yes, "" }),
		{desc: "skipoptional", tag: tag, run: func(s *cryptobyte.String) (bool, string) {
			return s.SkipOptionalASN1(t), ""
		}, ref: func(b []byte) (int, string, int) {
			v, _, u := opt(rawDec, "")(b)
			return v, "", u
		}},
		{desc: "optional", tag: tag, run: func(s *cryptobyte.String) (bool, string) {
			var out cryptobyte.String
			p := len(*s) > 5
			ok := s.ReadOptionalASN1(&out, &p, t)
			if !p {
				return ok, "absent "
			}
			return ok, "present " + lhex(out)
		}, ref: opt(rawDec, "")},
		{desc: "optional without flag", tag: tag, run: func(s *cryptobyte.String) (bool, string) {
			out := cryptobyte.String{1, 2, 3}
			ok := s.ReadOptionalASN1(&out, nil, t)
			return ok, lhex(out)
		}, ref: func(b []byte) (int, string, int) {
			v, val, u := opt(rawDec, "")(b)
			if val == "absent " {
				return v, lhex([]byte{1, 2, 3}), u
			}
			return v, strings.TrimPrefix(val, "present "), u
		}},
		{desc: "optionaloctets", tag: tag, run: func(s *cryptobyte.String) (bool, string) {
			out := []byte{9}
			p := len(*s) > 5
			ok := s.ReadOptionalASN1OctetString(&out, &p, t)
			return ok, pres(p) + lhex(out)
		}, ref: opt(func(x []byte) (int, string) {
			y, used, ok := refContent(x, 4)
			if !ok || used != len(x) {
				return no, ""
			}
			return yes, lhex(y)
		}, lhex(nil))},
		{desc: "optionaloctets without flag", tag: tag, run: func(s *cryptobyte.String) (bool, string) {
			out := []byte{9}
			p := len(*s) > 0 && (*s)[0] == tag
			ok := s.ReadOptionalASN1OctetString(&out, nil, t)
			return ok, pres(p) + lhex(out)
		}, ref: opt(func(x []byte) (int, string) {
			y, used, ok := refContent(x, 4)
			if !ok || used != len(x) {
				return no, ""
			}
			return yes, lhex(y)
		}, lhex(nil))},
		{desc: "self", tag: tag, run: func(s *cryptobyte.String) (bool, string) {
			// reading into the string itself leaves the content
			self := *s
			ok := self.ReadASN1(&self, t)
			var out cryptobyte.String
			ok2 := s.ReadASN1(&out, t)
			if ok != ok2 {
				return ok, "differs"
			}
			return ok, lhex(self)
		}, ref: func(b []byte) (int, string, int) {
			x, used, ok := refContent(b, tag)
			if !ok {
				return no, "", 0
			}
			return yes, lhex(x), used
		}},
	}
	for _, it := range intTargets {
		it := it
		l = append(l, &rop{desc: "optional " + it.name, tag: tag, run: func(s *cryptobyte.String) (bool, string) {
			p := len(*s) > 0 && (*s)[0] == tag
			if it.bits == 0 {
				// the caller owns the result, and the default stays
				def := cp(it.def.(*big.Int))
				v := num(-77)
				ok := s.ReadOptionalASN1Integer(v, t, def)
				str := v.String()
				scribble([]any{v})
				if def.String() != it.defVal {
					str += " (the result shares memory with the default)"
				}
				return ok, pres(p) + str
			}
			ok, v := it.read(func(out any) bool { return s.ReadOptionalASN1Integer(out, t, it.def) })
			return ok, pres(p) + v
		}, ref: opt(func(x []byte) (int, string) {
			y, used, ok := refContent(x, 2)
			if !ok || used != len(x) {
				return no, ""
			}
			return refIntFor(it, y)
		}, it.defVal)})
	}
	return l
}

// readOpsOf lists every operation with its natural tag.
var readOpsOf = func() (l []*rop) {
	l = append(l,
		uintOp(1, func(s *cryptobyte.String) (bool, uint64) { var v uint8; ok := s.ReadUint8(&v); return ok, uint64(v) }),
		uintOp(2, func(s *cryptobyte.String) (bool, uint64) { var v uint16; ok := s.ReadUint16(&v); return ok, uint64(v) }),
		uintOp(3, func(s *cryptobyte.String) (bool, uint64) {
			v := uint32(0xffffffff)
			ok := s.ReadUint24(&v)
			return ok, uint64(v)
		}),
		uintOp(4, func(s *cryptobyte.String) (bool, uint64) { var v uint32; ok := s.ReadUint32(&v); return ok, uint64(v) }),
		prefixOp(1, func(s, out *cryptobyte.String) bool { return s.ReadUint8LengthPrefixed(out) }),
		prefixOp(2, func(s, out *cryptobyte.String) bool { return s.ReadUint16LengthPrefixed(out) }),
		prefixOp(3, func(s, out *cryptobyte.String) bool { return s.ReadUint24LengthPrefixed(out) }),
		tlvOp("bool", 1, func(s *cryptobyte.String) (bool, string) {
			var v bool
			ok := s.ReadASN1Boolean(&v)
			return ok, fmt.Sprint(v)
		}, refBool),
		&rop{desc: "optional bool", tag: 1, run: func(s *cryptobyte.String) (bool, string) {
			def := len(*s)%2 == 0
			v := !def
			ok := s.ReadOptionalASN1Boolean(&v, def)
			return ok, fmt.Sprint(v)
		}, ref: func(b []byte) (int, string, int) {
			if len(b) == 0 || b[0] != 1 {
				return yes, fmt.Sprint(len(b)%2 == 0), 0
			}
			x, used, ok := refContent(b, 1)
			if !ok {
				return no, "", 0
			}
			v, val := refBool(x)
			return v, val, used
		}},
		tlvOp("enum", 10, func(s *cryptobyte.String) (bool, string) {
			v := 77
			ok := s.ReadASN1Enum(&v)
			return ok, fmt.Sprint(v)
		}, func(x []byte) (int, string) { return refIntFor(intTargets[4], x) }),
		tlvOp("oid", 6, func(s *cryptobyte.String) (bool, string) {
			var v asn1.ObjectIdentifier
			ok := s.ReadASN1ObjectIdentifier(&v)
			return ok, v.String()
		}, refOID),
		tlvOp("time", 0x18, func(s *cryptobyte.String) (bool, string) {
			var v time.Time
			ok := s.ReadASN1GeneralizedTime(&v)
			return ok, fmt.Sprint(v.Unix())
		}, refTime),
		tlvOp("bitstring", 3, func(s *cryptobyte.String) (bool, string) {
			v := asn1.BitString{Bytes: []byte{1}, BitLength: 5}
			ok := s.ReadASN1BitString(&v)
			return ok, fmt.Sprint(v.BitLength, " ", lhex(v.Bytes))
		}, func(x []byte) (int, string) {
			if len(x) == 0 || x[0] > 7 || len(x) == 1 && x[0] != 0 || len(x) > 1 && x[len(x)-1]&(1<<x[0]-1) != 0 {
				return no, ""
			}
			return yes, fmt.Sprint(8*(len(x)-1)-int(x[0]), " ", lhex(x[1:]))
		}),
		tlvOp("bitbytes", 3, func(s *cryptobyte.String) (bool, string) {
			v := []byte{7}
			ok := s.ReadASN1BitStringAsBytes(&v)
			return ok, lhex(v)
		}, func(x []byte) (int, string) {
			if len(x) == 0 || x[0] != 0 {
				return no, ""
			}
			return yes, lhex(x[1:])
		}),
	)
	for _, it := range intTargets {
		it := it
		l = append(l, tlvOp("integer "+it.name, 2, func(s *cryptobyte.String) (bool, string) {
			return it.read(func(out any) bool { return s.ReadASN1Integer(out) })
		}, func(x []byte) (int, string) { return refIntFor(it, x) }))
	}
	l = append(l, tagOps(0x30)...)
	for _, n := range []int{0, 1, 2, 3, -1, math.MinInt, math.MaxInt, 1 << (strconv.IntSize/2 - 1)} {
		l = append(l, lenOps(n)...)
	}
	return l
}()

func refBool(x []byte) (int, string) {
	if len(x) != 1 || x[0] != 0 && x[0] != 0xff {
		return no, ""
	}
	return yes, fmt.Sprint(x[0] == 0xff)
}

// tally counts without locking.
type tally struct{ read, refused int64 }

func (t *tally) flush(c *mon.Case) {
	c.EvN("read", t.read)
	c.EvN("refused", t.refused)
}

// apply runs one operation on in[:len] and compares; it returns the rest.
func (t *tally) apply(c *mon.Case, o *rop, in []byte) []byte {
	if in == nil {
		in = []byte{} // reading nothing from a nil String is left open
	}
	s := cryptobyte.String(in)
	v, val, used := o.ref(in)
	var ok bool
	var got string
	if p, panicked := mon.Panics(func() { ok, got = o.run(&s) }); panicked {
		c.Note("input", clone(in))
		c.Fail("panic", "%s panicked: %v", o.desc, p)
	}
	if ok && v == no || !ok && v == yes {
		c.Note("input", clone(in))
		c.Fail("verdict", "%s (tag %#x) succeeds: %v (value %s), want %v (value %s)", o.desc, o.tag, ok, got, v == yes, val)
	}
	if cap(in) > len(in) {
		// the same without any memory behind the input
		s2, ok2, got2 := cryptobyte.String(in[:len(in):len(in)]), false, ""
		if p, panicked := mon.Panics(func() { ok2, got2 = o.run(&s2) }); panicked {
			c.Note("input", clone(in))
			c.Fail("panic", "%s of a slice without spare capacity panicked: %v", o.desc, p)
		}
		if ok2 != ok || got2 != got || len(s2) != len(s) {
			c.Note("input", clone(in))
			c.Fail("capacity", "%s depends on the capacity of its input: %v %s leaving %d bytes, without spare capacity %v %s leaving %d", o.desc, ok, got, len(s), ok2, got2, len(s2))
		}
	}
	if !ok {
		t.refused++
		// whatever was consumed, the string stays inside the input
		if len(s) > len(in) || !bytes.Equal(s, in[len(in)-len(s):]) {
			c.Note("input", clone(in))
			c.Fail("left", "%s failed and left %s", o.desc, hexs(s))
		}
		return in
	}
	t.read++
	if got != val {
		c.Note("input", clone(in))
		c.Fail("value", "%s (tag %#x) gives %s, want %s", o.desc, o.tag, got, val)
	}
	if len(s) != len(in)-used || !bytes.Equal(s, in[used:]) {
		c.Note("input", clone(in))
		c.Fail("advance", "%s left %d of %d bytes, want %d", o.desc, len(s), len(in), len(in)-used)
	}
	return in[used:]
}

// c25Short: all inputs of up to two bytes, and three with a short alphabet.
func c25Short(c *mon.Case) {
	var t tally
	// the bytes after the input would complete it
	arr := bytes.Repeat([]byte{1}, 300)
	if c.Idx >= 256 {
		for n := 0; n < 2; n++ {
			for b := 0; b < 256; b++ {
				arr[0] = byte(b)
				for _, o := range readOpsOf {
					t.apply(c, o, arr[:n])
				}
			}
		}
		t.flush(c)
		return
	}
	arr[0] = byte(c.Idx)
	own := tagOps(byte(c.Idx))
	for b := 0; b < 256; b++ {
		arr[1] = byte(b)
		for _, o := range readOpsOf {
			t.apply(c, o, arr[:2])
		}
		for _, o := range own {
			t.apply(c, o, arr[:1])
			t.apply(c, o, arr[:2])
			for _, x := range []byte{0, 1, 0x7f, 0x80, 0xff} {
				arr[2] = x
				t.apply(c, o, arr[:3])
			}
			arr[2] = 1
		}
	}
	t.flush(c)
	c.Distinct(c.Idx)
}

var alphabet3 = []byte{0, 1, 2, 3, 4, 7, 8, 0x27, 0x28, 0x4f, 0x50, 0x7f, 0x80, 0x81, 0x83, 0xfe, 0xff}

// c25Content: for each operation, all contents of one and two bytes, and
// three to nine from a short alphabet.
func c25Content(c *mon.Case) {
	o := readOpsOf[c.Idx/65]
	part := c.Idx % 65
	tag := o.tag
	if tag == 0 {
		tag = 2
	}
	var t tally
	arr := bytes.Repeat([]byte{0xff}, 64)
	arr[0] = tag
	if part == 64 {
		for n := 0; n <= 1; n++ {
			arr[1] = byte(n)
			for b := 0; b < 256; b++ {
				arr[2] = byte(b)
				t.apply(c, o, arr[:2+n])
				t.apply(c, o, arr[:2+n+1])
			}
		}
		t.flush(c)
		return
	}
	arr[1] = 2
	for a := 4 * part; a < 4*part+4; a++ {
		for b := 0; b < 256; b++ {
			arr[2], arr[3] = byte(a), byte(b)
			t.apply(c, o, arr[:4])
			t.apply(c, o, arr[:5])
		}
	}
	for i := 0; i < 300; i++ {
		n := 3 + c.IntN(8)
		arr[1] = byte(n)
		for j := 0; j < n; j++ {
			arr[2+j] = alphabet3[c.IntN(len(alphabet3))]
		}
		t.apply(c, o, arr[:2+n])
		c.Distinct(arr[:2+n])
		t.apply(c, o, arr[:2+n-1])
		// explicitly tagged
		for j := n; j > 0; j-- {
			arr[3+j] = arr[1+j]
		}
		arr[1], arr[2], arr[3] = byte(n+2), []byte{2, 4, 1, 2, 3}[c.IntN(5)], byte(n)
		t.apply(c, o, arr[:4+n])
		arr[3] = byte(n - 1)
		t.apply(c, o, arr[:4+n])
	}
	t.flush(c)
}

// c25Lengths: long, lying and non-minimal lengths.
func c25Lengths(c *mon.Case) {
	var t tally
	n := []int{127, 128, 129, 255, 256, 257, 65535, 65536, 65537, 100000}[c.Idx%10]
	tag := lowTags[c.IntN(len(lowTags))]
	ops := append(tagOps(tag), readOpsOf[:14]...)
	body := make([]byte, n)
	for i := range body {
		body[i] = byte(c.Uint32())
	}
	forms := [][]byte{ref.DERLen(n)}
	for k := 0; k <= 6; k++ {
		b := []byte{0x80 | byte(k)}
		for i := k - 1; i >= 0; i-- {
			b = append(b, byte(uint64(n)>>(8*i)))
		}
		forms = append(forms, b)
	}
	forms = append(forms, []byte{0x84, 0xff, 0xff, 0xff, 0xff}, []byte{0x84, 0xff, 0xff, 0xff, 0xfa}, []byte{0x84, 0xff, 0xff, 0xff, 0xfb}, []byte{0x84, 0x80, 0, 0, 0}, []byte{0x84, 0x7f, 0xff, 0xff, 0xff}, []byte{0x88, 0, 0, 0, 0, 0, 0, 0, 1}, []byte{0xff}, ref.DERLen(n+1), ref.DERLen(n-1))
	for _, f := range forms {
		whole := append(append([]byte{tag}, f...), body...)
		whole = append(whole, c.Bytes(3)...)
		for _, cut := range []int{0, 1, 2, 3, 4, 5, 1 + len(f), 2 + len(f)} {
			if cut > len(whole) {
				continue
			}
			for _, o := range ops {
				t.apply(c, o, whole[:len(whole)-cut])
				if cut <= 1+len(f) {
					t.apply(c, o, whole[:cut])
				}
			}
		}
	}
	c.EvN("long-form", int64(len(forms)))
	c.Distinct(n, tag)
	t.flush(c)
}

func anyReadOp(c *mon.Case, in []byte) *rop {
	switch c.IntN(4) {
	case 0:
		if len(in) > 0 {
			l := tagOps(in[0])
			return l[c.IntN(len(l))]
		}
	case 1:
		l := lenOps(c.IntN(len(in)+3) - 1)
		return l[c.IntN(len(l))]
	case 2:
		if len(in) > 0 {
			// an operation whose tag fits
			for i := 0; i < 20; i++ {
				o := readOpsOf[c.IntN(len(readOpsOf))]
				if o.tag == in[0] {
					return o
				}
			}
		}
	}
	return readOpsOf[c.IntN(len(readOpsOf))]
}

// c25Cuts: every cut of an encoding whose remainder follows in memory.
func c25Cuts(c *mon.Case) {
	var t tally
	o := anyOp(c, 2, false)
	w := append(clone(o.want), c.Bytes(6)...)
	if len(w) > 400 {
		w = w[:400]
	}
	var ops []*rop
	for i := 0; i < 6; i++ {
		ops = append(ops, anyReadOp(c, w))
	}
	for n := 0; n <= len(w); n++ {
		for _, r := range ops {
			t.apply(c, r, w[:n])
		}
	}
	c.Distinct(w)
	t.flush(c)
}

// c25Hostile: mutated encodings under all operations.
func c25Hostile(c *mon.Case) {
	var t tally
	o := anyOp(c, 1, false)
	w := clone(o.want)
	if len(w) > 300 {
		w = w[:300]
	}
	for k := c.IntN(4); k > 0 && len(w) > 0; k-- {
		at := c.IntN(len(w))
		if c.IntN(2) == 0 && len(w) > 4 {
			at = c.IntN(4)
		}
		switch c.IntN(5) {
		case 0:
			w[at] ^= 1 << c.IntN(8)
		case 1:
			w[at] = alphabet3[c.IntN(len(alphabet3))]
		case 2:
			w = append(w[:at], append([]byte{alphabet3[c.IntN(len(alphabet3))]}, w[at:]...)...)
		case 3:
			w = append(w[:at], w[at+1:]...)
		case 4:
			w[at]++
		}
	}
	for _, r := range readOpsOf {
		t.apply(c, r, w)
	}
	if len(w) > 0 {
		for _, r := range tagOps(w[0]) {
			t.apply(c, r, w)
		}
	}
	c.Distinct(w)
	t.flush(c)
}

// c25Sequences: histories of reads, following children too.
func c25Sequences(c *mon.Case) {
	var t tally
	var in []byte
	if c.IntN(4) == 0 {
		in = c.Bytes(c.IntN(60))
	} else {
		in, _ = wantBytes(anyOps(c, 3, false, 6))
	}
	if c.IntN(3) == 0 && len(in) > 0 {
		in[c.IntN(len(in))] ^= 1 << c.IntN(8)
	}
	f := c.Freeze(in)
	if in == nil {
		f = c.Freeze([]byte{})
	}
	cur := f.B
	var trace []string
	for i := 0; i < 30; i++ {
		o := anyReadOp(c, cur)
		trace = append(trace, o.desc)
		c.Note("trace", strings.Join(trace, ", "))
		rest := t.apply(c, o, cur)
		if len(rest) < len(cur) && c.IntN(3) == 0 {
			// descend into the element just read
			if _, h, n, ok := refTLV(cur); ok && n == len(cur)-len(rest) {
				var child cryptobyte.String
				s := cryptobyte.String(cur)
				var g cbasn1.Tag
				if !s.ReadAnyASN1(&child, &g) || !bytes.Equal(child, cur[h:n]) {
					c.Fail("child", "element not read again")
				}
				cur = []byte(child)
				trace = append(trace, "descend")
				continue
			}
		}
		cur = rest
	}
	c.Check(f.Changed() == "", "input-modified", "%s", f.Changed())
	c.Distinct(in, strings.Join(trace, ","))
	if c.Idx%400 == 0 {
		c.Sample("%d bytes: %s", len(in), strings.Join(trace, ", "))
	}
	t.flush(c)
}

// c25Times: genuine and malformed GeneralizedTimes.
func c25Times(c *mon.Case) {
	var t tally
	var o *rop
	for _, r := range readOpsOf {
		if r.desc == "time" {
			o = r
		}
	}
	for i := 0; i < 20; i++ {
		x := gtime(anyGTime(c))
		if c.IntN(3) > 0 {
			switch c.IntN(9) {
			case 0:
				x[c.IntN(len(x))] = byte('0' + c.IntN(10))
			case 1:
				x[c.IntN(len(x))] = byte(c.IntN(256))
			case 2:
				x = append(x[:14], []byte([]string{"", "z", "+0000", "-0000", "+0800", "-1130", "+2400", "+2359", "+0060", "+08", "+08:00", ".5Z", ".0Z", ",5Z", ".Z", " Z", "Z ", "ZZ", "UTC", "+080000"}[c.IntN(20)])...)
			case 3:
				x = x[:c.IntN(len(x))]
			case 4:
				x = append(x, x[c.IntN(len(x))])
			case 5:
				copy(x[4:], []string{"0229", "0230", "0231", "0431", "0631", "0931", "1131", "0000", "0100", "1301", "1232", "0001"}[c.IntN(12)])
			case 6:
				copy(x[8:], []string{"240000", "235960", "236000", "250000", "000060", "006000", "235959"}[c.IntN(7)])
			case 7:
				x = x[2:] // a UTCTime
			case 8:
				x = append(append([]byte{}, x[:12]...), 'Z') // no seconds
			}
		}
		der := ref.TLV(0x18, x)
		a := t
		t.apply(c, o, der)
		if t.read > a.read {
			c.Ev("time-read")
		} else {
			c.Ev("time-refused")
		}
		c.Distinct(der)
	}
	t.flush(c)
}
