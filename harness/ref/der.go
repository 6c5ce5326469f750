package ref

import (
	"errors"
	"math/big"
)

// DERLen is a minimal DER length.
func DERLen(n int) []byte {
	if n < 128 {
		return []byte{byte(n)}
	}
	var b []byte
	for x := n; x > 0; x >>= 8 {
		b = append([]byte{byte(x)}, b...)
	}
	return append([]byte{0x80 | byte(len(b))}, b...)
}

// TLV is one DER element.
func TLV(tag byte, content ...[]byte) []byte {
	var c []byte
	for _, p := range content {
		c = append(c, p...)
	}
	o := append([]byte{tag}, DERLen(len(c))...)
	return append(o, c...)
}

// IntBytes is the minimal two's complement form of x.
func IntBytes(x *big.Int) []byte {
	if x.Sign() == 0 {
		return []byte{0}
	}
	if x.Sign() > 0 {
		b := x.Bytes()
		if b[0]&0x80 != 0 {
			b = append([]byte{0}, b...)
		}
		return b
	}
	// -x-1 has the complemented bits
	y := new(big.Int).Not(x)
	b := y.Bytes()
	if len(b) == 0 {
		b = []byte{0}
	}
	for i := range b {
		b[i] = ^b[i]
	}
	if b[0]&0x80 == 0 {
		b = append([]byte{0xff}, b...)
	}
	return b
}

func DERInt(x *big.Int) []byte { return TLV(2, IntBytes(x)) }

// SigDER is the DER of a signature.
func SigDER(r, s *big.Int) []byte { return TLV(0x30, DERInt(r), DERInt(s)) }

var ErrDER = errors.New("not DER")

// ReadTLV reads one element with a minimal definite length.
func ReadTLV(b []byte) (tag byte, content, rest []byte, err error) {
	if len(b) < 2 || b[0]&0x1f == 0x1f {
		return 0, nil, nil, ErrDER
	}
	tag = b[0]
	n := int(b[1])
	b = b[2:]
	if n >= 0x80 {
		k := n & 0x7f
		if k == 0 || k > 4 || len(b) < k || b[0] == 0 {
			return 0, nil, nil, ErrDER
		}
		n = 0
		for i := 0; i < k; i++ {
			n = n<<8 | int(b[i])
		}
		b = b[k:]
		if n < 128 {
			return 0, nil, nil, ErrDER
		}
	}
	if n > len(b) {
		return 0, nil, nil, ErrDER
	}
	return tag, b[:n], b[n:], nil
}

// ReadInt reads one minimal DER INTEGER.
func ReadInt(b []byte) (*big.Int, []byte, error) {
	tag, c, rest, err := ReadTLV(b)
	if err != nil || tag != 2 {
		return nil, nil, ErrDER
	}
	x, err := IntFrom(c)
	return x, rest, err
}

// IntFrom decodes minimal two's complement content.
func IntFrom(c []byte) (*big.Int, error) {
	if len(c) == 0 {
		return nil, ErrDER
	}
	if len(c) > 1 && (c[0] == 0 && c[1]&0x80 == 0 || c[0] == 0xff && c[1]&0x80 != 0) {
		return nil, ErrDER
	}
	x := new(big.Int).SetBytes(c)
	if c[0]&0x80 != 0 {
		x.Sub(x, new(big.Int).Lsh(big.NewInt(1), uint(8*len(c))))
	}
	return x, nil
}

// ParseSig decodes the strict DER of a signature.
func ParseSig(b []byte) (r, s *big.Int, err error) {
	tag, c, rest, err := ReadTLV(b)
	if err != nil || tag != 0x30 || len(rest) != 0 {
		return nil, nil, ErrDER
	}
	if r, c, err = ReadInt(c); err != nil {
		return nil, nil, err
	}
	if s, c, err = ReadInt(c); err != nil || len(c) != 0 {
		return nil, nil, ErrDER
	}
	return r, s, nil
}

// CipherDER is the GM/T 0009 structure for a raw ciphertext.
func CipherDER(raw []byte, c3First bool) ([]byte, error) {
	if len(raw) < 97 || raw[0] != 4 {
		return nil, ErrDER
	}
	c1, c2, c3 := Split(raw, c3First)
	x, y := new(big.Int).SetBytes(c1[1:33]), new(big.Int).SetBytes(c1[33:])
	if c3First {
		return TLV(0x30, DERInt(x), DERInt(y), TLV(4, c3), TLV(4, c2)), nil
	}
	return TLV(0x30, DERInt(x), DERInt(y), TLV(4, c2), TLV(4, c3)), nil
}

// ParseCipher is the inverse of CipherDER, strict.
func ParseCipher(b []byte, c3First bool) ([]byte, error) {
	tag, c, rest, err := ReadTLV(b)
	if err != nil || tag != 0x30 || len(rest) != 0 {
		return nil, ErrDER
	}
	x, c, err := ReadInt(c)
	if err != nil {
		return nil, err
	}
	y, c, err := ReadInt(c)
	if err != nil {
		return nil, err
	}
	t1, o1, c, err := ReadTLV(c)
	if err != nil || t1 != 4 {
		return nil, ErrDER
	}
	t2, o2, c, err := ReadTLV(c)
	if err != nil || t2 != 4 || len(c) != 0 {
		return nil, ErrDER
	}
	if x.Sign() < 0 || y.Sign() < 0 || x.BitLen() > 256 || y.BitLen() > 256 {
		return nil, ErrDER
	}
	c2, c3 := o1, o2
	if c3First {
		c2, c3 = o2, o1
	}
	if len(c3) != 32 {
		return nil, ErrDER
	}
	c1 := append([]byte{4}, append(B32(x), B32(y)...)...)
	return Join(c1, c2, c3, c3First), nil
}
