// Package ref is an independent implementation of the GM algorithms, written
// from the standards (GB/T 32905, 32907, 32918), used only as an oracle.
package ref

import "math/bits"

// SM3 is the one-shot digest of the concatenation of parts.
func SM3(parts ...[]byte) []byte {
	var m []byte
	for _, p := range parts {
		m = append(m, p...)
	}
	h := NewSM3()
	h.Write(m)
	s := h.Sum()
	return s[:]
}

// SM3State is a streaming digest with a 64-bit length.
type SM3State struct {
	V   [8]uint32
	buf []byte
	n   uint64
}

func NewSM3() *SM3State {
	return &SM3State{V: [8]uint32{0x7380166f, 0x4914b2b9, 0x172442d7, 0xda8a0600, 0xa96f30bc, 0x163138aa, 0xe38dee4d, 0xb0fb0e4e}}
}

func (s *SM3State) Clone() *SM3State {
	c := *s
	c.buf = append([]byte(nil), s.buf...)
	return &c
}

func (s *SM3State) Write(p []byte) {
	s.n += uint64(len(p))
	if len(s.buf) > 0 {
		k := 64 - len(s.buf)
		if k > len(p) {
			k = len(p)
		}
		s.buf = append(s.buf, p[:k]...)
		p = p[k:]
		if len(s.buf) < 64 {
			return
		}
		s.V = sm3Compress(s.V, s.buf)
		s.buf = s.buf[:0]
	}
	for len(p) >= 64 {
		s.V = sm3Compress(s.V, p[:64])
		p = p[64:]
	}
	s.buf = append(s.buf, p...)
}

func (s *SM3State) Sum() [32]byte {
	m := append([]byte(nil), s.buf...)
	m = append(m, 0x80)
	for len(m)%64 != 56 {
		m = append(m, 0)
	}
	l := s.n * 8
	for i := 7; i >= 0; i-- {
		m = append(m, byte(l>>(8*uint(i))))
	}
	v := s.V
	for i := 0; i < len(m); i += 64 {
		v = sm3Compress(v, m[i:i+64])
	}
	var out [32]byte
	for i, w := range v {
		out[4*i], out[4*i+1], out[4*i+2], out[4*i+3] = byte(w>>24), byte(w>>16), byte(w>>8), byte(w)
	}
	return out
}

var sm3T [64]uint32

func init() {
	for j := range sm3T {
		t := uint32(0x7a879d8a)
		if j < 16 {
			t = 0x79cc4519
		}
		sm3T[j] = bits.RotateLeft32(t, j%32)
	}
}

func sm3Compress(v [8]uint32, b []byte) [8]uint32 {
	var w [68]uint32
	for i := 0; i < 16; i++ {
		w[i] = uint32(b[4*i])<<24 | uint32(b[4*i+1])<<16 | uint32(b[4*i+2])<<8 | uint32(b[4*i+3])
	}
	rl := bits.RotateLeft32
	for j := 16; j < 68; j++ {
		x := w[j-16] ^ w[j-9] ^ rl(w[j-3], 15)
		x = x ^ rl(x, 15) ^ rl(x, 23)
		w[j] = x ^ rl(w[j-13], 7) ^ w[j-6]
	}
	s := v
	for j := 0; j < 64; j++ {
		ss1 := rl(rl(s[0], 12)+s[4]+sm3T[j], 7)
		ss2 := ss1 ^ rl(s[0], 12)
		var ff, gg uint32
		if j < 16 {
			ff = s[0] ^ s[1] ^ s[2]
			gg = s[4] ^ s[5] ^ s[6]
		} else {
			ff = s[0]&s[1] | s[0]&s[2] | s[1]&s[2]
			gg = s[4]&s[5] | ^s[4]&s[6]
		}
		tt1 := ff + s[3] + ss2 + (w[j] ^ w[j+4])
		tt2 := gg + s[7] + ss1 + w[j]
		s[3] = s[2]
		s[2] = rl(s[1], 9)
		s[1] = s[0]
		s[0] = tt1
		s[7] = s[6]
		s[6] = rl(s[5], 19)
		s[5] = s[4]
		s[4] = tt2 ^ rl(tt2, 9) ^ rl(tt2, 17)
	}
	for i := range v {
		v[i] ^= s[i]
	}
	return v
}

// HMAC is RFC 2104 over SM3 with its 64-byte block.
func HMAC(key, msg []byte) []byte {
	if len(key) > 64 {
		key = SM3(key)
	}
	ip, op := make([]byte, 64), make([]byte, 64)
	for i := range ip {
		var k byte
		if i < len(key) {
			k = key[i]
		}
		ip[i], op[i] = k^0x36, k^0x5c
	}
	return SM3(op, SM3(ip, msg))
}

// zeroMid are chaining values after 2^29, 2^31 and 2^32 zero bytes, computed
// with this implementation and confirmed with openssl dgst -sm3.
var zeroMid = map[uint64][8]uint32{
	1 << 29: {0x8813ed43, 0x5d796099, 0x33ac5d6e, 0x9bbdac7c, 0xdbc98e8b, 0xf6bde5da, 0xf70d4ef9, 0xeb281ebc},
	1 << 31: {0x3f84ab08, 0xe3865a6d, 0xd3a29586, 0x12a145ce, 0x1a1dbc0c, 0x4de49a19, 0xc4bc63b1, 0x7b093e7a},
	1 << 32: {0x792042da, 0x678fec0d, 0xa9e62dc8, 0x320e1d14, 0xd43b756, 0xfdc87613, 0xe10d9d9d, 0x2f53af1d},
}

// SM3Zeros is the digest of n zero bytes for n slightly above a stored point.
func SM3Zeros(n uint64, tail []byte) []byte {
	var base uint64
	for b := range zeroMid {
		if b <= n && b > base {
			base = b
		}
	}
	s := &SM3State{V: zeroMid[base], n: base}
	s.Write(make([]byte, n-base))
	s.Write(tail)
	d := s.Sum()
	return d[:]
}
