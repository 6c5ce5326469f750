package ref

import "math/bits"

// The S-box is derived algebraically: S(x) = A(I(A(x)+C))+C over
// GF(2^8)/(x^8+x^7+x^6+x^5+x^4+x^2+1), A the circulant of 0xA7 shifted, C=0xD3.
var sm4S [256]byte

func gfMul(a, b uint16) byte {
	var r uint16
	for i := 0; i < 8; i++ {
		if b>>uint(i)&1 == 1 {
			r ^= a << uint(i)
		}
	}
	for i := 15; i >= 8; i-- {
		if r>>uint(i)&1 == 1 {
			r ^= 0x1f5 << uint(i-8)
		}
	}
	return byte(r)
}

func gfInv(a byte) byte {
	if a == 0 {
		return 0
	}
	for b := 1; b < 256; b++ {
		if gfMul(uint16(a), uint16(b)) == 1 {
			return byte(b)
		}
	}
	panic("no inverse")
}

func sm4Affine(x byte) byte {
	var r byte
	row := byte(0xd3)
	for i := 0; i < 8; i++ {
		// output bit i is the parity of the row 0xA7 rotated left by i
		m := bits.RotateLeft8(0xa7, i)
		r |= byte(bits.OnesCount8(m&x)&1) << uint(i)
	}
	return r ^ row
}

func init() {
	for x := 0; x < 256; x++ {
		sm4S[x] = sm4Affine(gfInv(sm4Affine(byte(x))))
	}
}

func sm4Tau(x uint32) uint32 {
	return uint32(sm4S[x>>24])<<24 | uint32(sm4S[x>>16&255])<<16 | uint32(sm4S[x>>8&255])<<8 | uint32(sm4S[x&255])
}

// SM4Keys is the round key schedule.
func SM4Keys(key []byte) [32]uint32 {
	fk := [4]uint32{0xa3b1bac6, 0x56aa3350, 0x677d9197, 0xb27022dc}
	var k [36]uint32
	for i := 0; i < 4; i++ {
		k[i] = be32(key[4*i:]) ^ fk[i]
	}
	var rk [32]uint32
	for i := 0; i < 32; i++ {
		var ck uint32
		for j := 0; j < 4; j++ {
			ck = ck<<8 | uint32((4*i+j)*7%256)
		}
		b := sm4Tau(k[i+1] ^ k[i+2] ^ k[i+3] ^ ck)
		k[i+4] = k[i] ^ b ^ bits.RotateLeft32(b, 13) ^ bits.RotateLeft32(b, 23)
		rk[i] = k[i+4]
	}
	return rk
}

func be32(b []byte) uint32 {
	return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
}

// SM4Block encrypts or decrypts one block under a key schedule.
func SM4Block(rk *[32]uint32, in []byte, dec bool) []byte {
	var x [36]uint32
	for i := 0; i < 4; i++ {
		x[i] = be32(in[4*i:])
	}
	for i := 0; i < 32; i++ {
		k := rk[i]
		if dec {
			k = rk[31-i]
		}
		b := sm4Tau(x[i+1] ^ x[i+2] ^ x[i+3] ^ k)
		x[i+4] = x[i] ^ b ^ bits.RotateLeft32(b, 2) ^ bits.RotateLeft32(b, 10) ^ bits.RotateLeft32(b, 18) ^ bits.RotateLeft32(b, 24)
	}
	out := make([]byte, 16)
	for i := 0; i < 4; i++ {
		w := x[35-i]
		out[4*i], out[4*i+1], out[4*i+2], out[4*i+3] = byte(w>>24), byte(w>>16), byte(w>>8), byte(w)
	}
	return out
}

func SM4ECB(key, in []byte, dec bool) []byte {
	rk := SM4Keys(key)
	var out []byte
	for i := 0; i+16 <= len(in); i += 16 {
		out = append(out, SM4Block(&rk, in[i:i+16], dec)...)
	}
	return out
}

func SM4CBC(key, iv, in []byte, dec bool) []byte {
	rk := SM4Keys(key)
	prev := append([]byte(nil), iv...)
	var out []byte
	for i := 0; i+16 <= len(in); i += 16 {
		if dec {
			p := SM4Block(&rk, in[i:i+16], true)
			for j := range p {
				p[j] ^= prev[j]
			}
			out = append(out, p...)
			prev = in[i : i+16]
		} else {
			x := make([]byte, 16)
			for j := range x {
				x[j] = in[i+j] ^ prev[j]
			}
			prev = SM4Block(&rk, x, false)
			out = append(out, prev...)
		}
	}
	return out
}

// SM4CTR is CTR mode with a 128-bit big-endian counter.
func SM4CTR(key, iv, in []byte) []byte {
	rk := SM4Keys(key)
	ctr := append([]byte(nil), iv...)
	out := make([]byte, len(in))
	for i := 0; i < len(in); i += 16 {
		ks := SM4Block(&rk, ctr, false)
		for j := 0; j < 16 && i+j < len(in); j++ {
			out[i+j] = in[i+j] ^ ks[j]
		}
		for j := 15; j >= 0; j-- {
			ctr[j]++
			if ctr[j] != 0 {
				break
			}
		}
	}
	return out
}
