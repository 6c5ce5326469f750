package props

import (
	"bytes"
	"crypto/cipher"
	"encoding/hex"

	"github.com/ZZMarquis/gm/sm4"
	"github.com/ZZMarquis/gm/util"

	"vharness/mon"
	"vharness/ref"
)

func init() {
	register(&mon.Prop{
		ID:   "C03",
		Rule: "each case draws keys and blocks (random, single-bit, every byte value in every position), buffer layouts (separate, in place, overlapping, oversized) and key lengths 0..64, and compares with an SM4 whose S-box is derived algebraically; distinct by key, block and layout",
		Workloads: []mon.Workload{
			{Name: "random", Quick: 20000, Thorough: 600000, Run: c03Random},
			{Name: "bits", Quick: 256, Thorough: 2048, Run: c03Bits},
			{Name: "layout", Quick: 4000, Thorough: 100000, Run: c03Layout},
			{Name: "badsizes", Quick: 129, Thorough: 600, Run: c03Sizes},
			{Name: "chain", Quick: 2, Thorough: 8, Run: c03Chain},
			{Name: "modes", Quick: 2000, Thorough: 40000, Run: c03Modes},
		},
		Need: map[string]int64{"blocks-compared": 20000, "bad-size-refused": 100},
	})
	register(&mon.Prop{
		ID:   "C04",
		Rule: "each case calls the four mode functions on random keys, IVs and 0..64 blocks in guarded memory and compares with the standard modes (also sequences of calls whose related keys, IVs and data live in the same memory), or makes one malformed call; distinct by function, key, IV and data",
		Workloads: []mon.Workload{
			{Name: "modes", Quick: 4000, Thorough: 100000, Run: c04Modes},
			{Name: "large", Quick: 16, Thorough: 60, Run: c04Large},
			{Name: "reused", Quick: 1500, Thorough: 50000, Run: c04Reused},
			{Name: "malformed", Quick: 6000, Thorough: 100000, Run: c04Malformed},
		},
		Need: map[string]int64{"compared": 2000, "refused": 500, "reused": 10000},
	})
	register(&mon.Prop{
		ID:   "C05",
		Rule: "cases enumerate block sizes 1..255 with all lengths up to two blocks and random longer ones up to a megabyte, inputs in guarded memory with spare capacity, and feed arbitrary bytes to unpadding; distinct by block size, length and content",
		Workloads: []mon.Workload{
			{Name: "pad", Quick: 255, Thorough: 255, Run: c05Pad},
			{Name: "long", Quick: 1000, Thorough: 20000, Run: c05Long},
			{Name: "unpad", Quick: 8000, Thorough: 300000, Run: c05Unpad},
			{Name: "pipeline", Quick: 2000, Thorough: 60000, Run: c05Pipeline},
		},
		Need: map[string]int64{"padded": 50000, "very-long": 100, "unpadded-hostile": 5000, "pipeline": 500},
	})
}

func newCipher(c *mon.Case, key []byte) cipher.Block {
	b, err := sm4.NewCipher(key)
	if err != nil || b == nil {
		c.Fail("newcipher", "NewCipher of a 16-byte key: %v", err)
	}
	return b
}

func c03Block(c *mon.Case, key, blk []byte) {
	rk := ref.SM4Keys(key)
	b := newCipher(c, key)
	c.Note("key", key)
	c.Note("block", blk)
	out := make([]byte, 16)
	b.Encrypt(out, blk)
	want := ref.SM4Block(&rk, blk, false)
	same(c, "encrypt", out, want, "SM4 encryption")
	b.Decrypt(out, blk)
	same(c, "decrypt", out, ref.SM4Block(&rk, blk, true), "SM4 decryption")
	b.Decrypt(out, want)
	same(c, "inverse", out, blk, "decryption of the encryption")
	c.EvN("blocks-compared", 3)
	c.Distinct(key, blk)
}

func c03Random(c *mon.Case) {
	for i := 0; i < 4; i++ {
		key, blk := c.Msg(16), c.Msg(16)
		c03Block(c, key, blk)
	}
	// one cipher object, many blocks, both directions interleaved
	key := c.Bytes(16)
	rk := ref.SM4Keys(key)
	b := newCipher(c, key)
	if b.BlockSize() != 16 {
		c.Fail("blocksize", "BlockSize %d", b.BlockSize())
	}
	c.Note("key", key)
	for i := 0; i < 8; i++ {
		blk := c.Msg(16)
		out := make([]byte, 16)
		dec := c.IntN(2) == 1
		if dec {
			b.Decrypt(out, blk)
		} else {
			b.Encrypt(out, blk)
		}
		c.Note("block", blk)
		same(c, "history", out, ref.SM4Block(&rk, blk, dec), "block %d of one cipher object (decrypt=%v)", i, dec)
		c.Ev("blocks-compared")
	}
	c.Sample("key=%x", key)
	// cipher objects made from one key buffer whose content changes
	buf := c.Bytes(16)
	type made struct {
		b   cipher.Block
		key []byte
	}
	var all []made
	blk := c.Msg(16)
	for i := 0; i < 4; i++ {
		if c.IntN(2) == 0 {
			buf[c.IntN(16)] ^= 1 << uint(c.IntN(8))
		} else {
			c.Fill(buf[c.IntN(16):])
		}
		all = append(all, made{newCipher(c, buf), clone(buf)})
		m := all[c.IntN(len(all))]
		if c.IntN(3) == 0 {
			blk = c.Msg(16)
		}
		c.Note("key", m.key)
		c.Note("block", blk)
		mrk := ref.SM4Keys(m.key)
		out := make([]byte, 16)
		dec := c.IntN(2) == 1
		if dec {
			m.b.Decrypt(out, blk)
		} else {
			m.b.Encrypt(out, blk)
		}
		same(c, "key-buffer", out, ref.SM4Block(&mrk, blk, dec), "cipher made from a key buffer used for %d keys (decrypt=%v)", len(all), dec)
		c.Ev("blocks-compared")
	}
}

// c03Bits: single bits of key and block, and byte value idx everywhere.
func c03Bits(c *mon.Case) {
	v := byte(c.Idx)
	for pos := 0; pos < 16; pos++ {
		k, b := make([]byte, 16), make([]byte, 16)
		k[pos] = v
		c03Block(c, k, b)
		k[pos] = 0
		b[pos] = v
		c03Block(c, k, b)
	}
	k, b := make([]byte, 16), make([]byte, 16)
	if c.Idx < 128 {
		k[c.Idx/8] = 1 << uint(c.Idx%8)
	} else {
		b[(c.Idx/8)%16] = 1 << uint(c.Idx%8)
	}
	c03Block(c, k, b)
	for i := range b {
		b[i] ^= 0xff
		k[i] ^= 0xff
	}
	c03Block(c, k, b)
}

func c03Layout(c *mon.Case) {
	key := c.Bytes(16)
	rk := ref.SM4Keys(key)
	fk := c.Freeze(key)
	b := newCipher(c, fk.B)
	if d := fk.Changed(); d != "" {
		c.Fail("key-modified", "NewCipher modified the key: %s", d)
	}
	for i := range fk.B { // the cipher must not depend on the caller's key any more
		fk.B[i] = 0x5a
	}
	for _, dec := range []bool{false, true} {
		blk := c.Bytes(16)
		want := ref.SM4Block(&rk, blk, dec)
		do := b.Encrypt
		if dec {
			do = b.Decrypt
		}
		c.Note("key", key)
		c.Note("block", blk)
		// oversized src and dst: only 16 bytes read and written
		src := c.Freeze(append(clone(blk), c.Bytes(c.IntN(40))...))
		dst := c.Bytes(16 + c.IntN(40))
		tail := clone(dst[16:])
		do(dst, src.B)
		same(c, "layout-out", dst[:16], want, "block operation with oversized buffers (decrypt=%v)", dec)
		same(c, "layout-tail", dst[16:], tail, "bytes after the output block (decrypt=%v)", dec)
		if d := src.Changed(); d != "" {
			c.Fail("src-modified", "block operation modified its source: %s", d)
		}
		// in place
		buf := clone(blk)
		do(buf, buf)
		same(c, "inplace", buf, want, "in-place block operation (decrypt=%v)", dec)
		// partial overlap at every offset
		for off := -15; off <= 15; off++ {
			area := make([]byte, 64)
			copy(area[20:], blk)
			if _, panicked := mon.Panics(func() { do(area[20+off:36+off], area[20:36]) }); panicked {
				c.Ev("overlap-refused") // refusing inexact overlap is what crypto/cipher does
				continue
			}
			same(c, "overlap", area[20+off:36+off], want, "block operation with buffers overlapping at offset %d (decrypt=%v)", off, dec)
			c.Ev("overlap")
		}
		c.EvN("blocks-compared", 2)
		c.Distinct(key, blk, dec)
	}
}

func c03Sizes(c *mon.Case) {
	n := c.Idx
	key := c.Bytes(n)
	var b cipher.Block
	var err error
	c.NoPanic("NewCipher", func() { b, err = sm4.NewCipher(key) })
	if n == 16 {
		c.Check(err == nil, "key16", "NewCipher refused 16 bytes: %v", err)
	} else {
		if err == nil {
			c.Fail("keysize", "NewCipher accepted a %d-byte key", n)
		}
		_ = err.Error()
		c.Ev("bad-size-refused")
	}
	c.Distinct("keysize", n)
	if n == 0 {
		b, err = sm4.NewCipher(nil)
		c.Check(err != nil, "nilkey", "NewCipher accepted nil")
	}
	if n >= 16 {
		return
	}
	b = newCipher(c, c.Bytes(16))
	for _, do := range []func(dst, src []byte){b.Encrypt, b.Decrypt} {
		full := c.Bytes(16)
		for _, short := range []int{n} {
			dst := make([]byte, 32)
			before := clone(dst)
			_, p1 := mon.Panics(func() { do(dst, full[:short]) })
			if !p1 {
				c.Fail("short-src", "a %d-byte source block was accepted", short)
			}
			same(c, "short-src-wrote", dst, before, "destination after a refused call")
			d2 := dst[:short]
			_, p2 := mon.Panics(func() { do(d2, full) })
			if !p2 {
				c.Fail("short-dst", "a %d-byte destination was accepted", short)
			}
			same(c, "short-dst-wrote", dst, before, "destination after a refused call")
			c.Ev("bad-size-refused")
		}
	}
}

// c03Chain is the standard's million-fold iteration, and a decrypting one.
func c03Chain(c *mon.Case) {
	key, _ := hex.DecodeString("0123456789abcdeffedcba9876543210")
	if c.Idx == 0 {
		b := newCipher(c, key)
		x := clone(key)
		for i := 0; i < 1000000; i++ {
			b.Encrypt(x, x)
		}
		want, _ := hex.DecodeString("595298c7c6fd271f0402f804c33d3f66")
		same(c, "million", x, want, "one million encryptions")
		c.EvN("blocks-compared", 1)
		c.Distinct("million")
		return
	}
	key = c.Bytes(16)
	b := newCipher(c, key)
	rk := ref.SM4Keys(key)
	x := c.Bytes(16)
	y := clone(x)
	for i := 0; i < 30000; i++ {
		if i%3 == 2 {
			b.Decrypt(x, x)
			y = ref.SM4Block(&rk, y, true)
		} else {
			b.Encrypt(x, x)
			y = ref.SM4Block(&rk, y, false)
		}
	}
	same(c, "chain", x, y, "chain of 30000 block operations")
	c.EvN("blocks-compared", 30000)
	c.Distinct(key)
}

// c03Modes: the block under crypto/cipher's own modes.
func c03Modes(c *mon.Case) {
	key, iv := c.Bytes(16), c.Bytes(16)
	if c.IntN(3) == 0 {
		for i := range iv {
			iv[i] = 0xff // counter wrap
		}
	}
	b := newCipher(c, key)
	m := c.Msg(anyLen(c, 400))
	c.Note("key", key)
	c.Note("iv", iv)
	c.Note("message", m)
	out := make([]byte, len(m))
	cipher.NewCTR(b, iv).XORKeyStream(out, m)
	same(c, "ctr", out, ref.SM4CTR(key, iv, m), "SM4-CTR")
	g, err := cipher.NewGCM(b)
	if err != nil {
		c.Fail("gcm", "NewGCM: %v", err)
	}
	ct := g.Seal(nil, iv[:12], m, key)
	j0 := append(clone(iv[:12]), 0, 0, 0, 2)
	same(c, "gcm", ct[:len(m)], ref.SM4CTR(key, j0, m), "SM4-GCM payload")
	pt, err := g.Open(nil, iv[:12], ct, key)
	c.Check(err == nil && bytes.Equal(pt, m), "gcm-open", "SM4-GCM does not open: %v", err)
	c.EvN("blocks-compared", int64(len(m)/16+1))
	c.Distinct(key, iv, m)
}

type modeFn struct {
	name string
	cbc  bool
	dec  bool
	call func(key, iv, in []byte) ([]byte, error)
}

var modeFns = []modeFn{
	{"ECBEncrypt", false, false, func(k, _, in []byte) ([]byte, error) { return sm4.ECBEncrypt(k, in) }},
	{"ECBDecrypt", false, true, func(k, _, in []byte) ([]byte, error) { return sm4.ECBDecrypt(k, in) }},
	{"CBCEncrypt", true, false, sm4.CBCEncrypt},
	{"CBCDecrypt", true, true, sm4.CBCDecrypt},
}

func c04Ref(f modeFn, key, iv, in []byte) []byte {
	if f.cbc {
		return ref.SM4CBC(key, iv, in, f.dec)
	}
	return ref.SM4ECB(key, in, f.dec)
}

func c04One(c *mon.Case, f modeFn, key, iv, in []byte) {
	fk, fi, fd := c.FreezeAs("key", key), c.FreezeAs("iv", iv), c.FreezeAs("data", in)
	c.Note("key", key)
	c.Note("iv", iv)
	c.Note("data", in)
	var out []byte
	var err error
	c.NoPanic(f.name, func() { out, err = f.call(fk.B, fi.B, fd.B) })
	if err != nil {
		c.Fail("error/"+f.name, "%s of %d bytes failed: %v", f.name, len(in), err)
	}
	same(c, "value/"+f.name, out, c04Ref(f, key, iv, in), "%s of %d bytes", f.name, len(in))
	for _, fr := range []*mon.Frozen{fk, fi, fd} {
		if d := fr.Changed(); d != "" {
			c.Fail("modified/"+f.name, "%s modified an argument: %s", f.name, d)
		}
		if fr.Overlaps(out) {
			c.Fail("alias/"+f.name, "the result of %s shares memory with an argument", f.name)
		}
	}
	c.Ev("compared")
	c.Distinct(f.name, key, iv, in)
	c.Sample("%s key=%x iv=%x data=%s", f.name, key, iv, hexs(in))
}

func c04Modes(c *mon.Case) {
	key, iv := c.Bytes(16), c.Bytes(16)
	n := 16 * c.IntN(9)
	if c.IntN(4) == 0 {
		n = 16 * c.IntN(65)
	}
	in := c.Msg(n)
	for _, f := range modeFns {
		c04One(c, f, key, iv, in)
	}
	// the documented pairs invert each other, and equal blocks stay independent of history
	e, err := sm4.CBCEncrypt(key, iv, in)
	c.Check(err == nil, "cbc", "CBCEncrypt: %v", err)
	d, err := sm4.CBCDecrypt(key, iv, e)
	c.Check(err == nil && bytes.Equal(d, in), "cbc-inverse", "CBC does not invert: %v", err)
	e, err = sm4.ECBEncrypt(key, in)
	c.Check(err == nil, "ecb", "ECBEncrypt: %v", err)
	d, err = sm4.ECBDecrypt(key, e)
	c.Check(err == nil && bytes.Equal(d, in), "ecb-inverse", "ECB does not invert: %v", err)
}

// c04Reused makes sequences of calls with related arguments: the same data
// under another key, keys and IVs that share most bytes, equal blocks, all of
// it half of the time in the memory of the call before.
func c04Reused(c *mon.Case) {
	key, iv, in := c.Msg(16), c.Msg(16), c.Msg(16*(1+c.IntN(4)))
	tweak := func(b []byte) []byte {
		b = clone(b)
		switch c.IntN(5) {
		case 0:
			c.Fill(b)
		case 1:
			b[len(b)-1]++
		case 2:
			b[0]++
		case 3:
			b[c.IntN(len(b))] ^= 1 << uint(c.IntN(8))
		case 4:
			c.Fill(b[len(b)/2:])
		}
		return b
	}
	for i := 0; i < 10; i++ {
		switch c.IntN(5) {
		case 0, 1:
			key = tweak(key)
		case 2:
			iv = tweak(iv)
		case 3:
			in = tweak(in)
		case 4:
			copy(in, bytes.Repeat(in[:16], len(in)/16))
		}
		c04One(c, modeFns[c.IntN(4)], key, iv, in)
		c.Ev("reused")
	}
}

func c04Large(c *mon.Case) {
	key, iv := c.Bytes(16), c.Bytes(16)
	// around the counters an implementation might use: 2^12, 2^16 and 2^20 blocks
	n := []int{1 << 12, 1 << 16, 1 << 16, 1 << 17, 4000 + c.IntN(9000)}[c.IntN(5)] + c.IntN(5) - 2
	if c.Idx == 0 {
		n = 1<<20 + 1
	}
	in := c.Bytes(16 * n)
	for _, f := range modeFns {
		c04One(c, f, key, iv, in)
	}
}

func c04Malformed(c *mon.Case) {
	f := modeFns[c.IntN(len(modeFns))]
	key, iv, in := c.Bytes(16), c.Bytes(16), c.Bytes(16*c.IntN(5))
	what := ""
	kinds := 2
	if f.cbc {
		kinds = 3
	}
	switch c.IntN(kinds) {
	case 0:
		in = c.Bytes(16*c.IntN(5) + 1 + c.IntN(15))
		what = "partial block"
	case 1:
		n := c.IntN(64)
		if n == 16 {
			n = 0
		}
		key = c.Bytes(n)
		if c.IntN(10) == 0 {
			key = nil
		}
		what = "key length"
	case 2:
		n := c.IntN(48)
		if n == 16 {
			n = 17
		}
		iv = c.Bytes(n)
		if c.IntN(10) == 0 {
			iv = nil
		}
		what = "iv length"
	}
	c.Note("key", key)
	c.Note("iv", iv)
	c.Note("data", in)
	fk, fi, fd := c.Freeze(key), c.Freeze(iv), c.Freeze(in)
	var out []byte
	var err error
	c.NoPanic(f.name+"/"+what, func() { out, err = f.call(fk.B, fi.B, fd.B) })
	if err == nil {
		c.Fail("accepted/"+f.name, "%s accepted a wrong %s (key %d, iv %d, data %d bytes)", f.name, what, len(key), len(iv), len(in))
	}
	if len(out) != 0 {
		c.Fail("output/"+f.name, "%s returned output together with an error", f.name)
	}
	for _, fr := range []*mon.Frozen{fk, fi, fd} {
		if d := fr.Changed(); d != "" {
			c.Fail("modified/"+f.name, "%s modified an argument: %s", f.name, d)
		}
	}
	c.Ev("refused")
	c.Distinct(f.name, what, len(key), len(iv), len(in))
	c.Sample("%s %s -> %v", f.name, what, err)
}

func c05One(c *mon.Case, m []byte, bs int) {
	f := c.FreezeAs("message", m)
	src := f.B
	if len(m) == 0 && c.IntN(2) == 0 {
		src = nil
	}
	n := bs - len(m)%bs
	c.Note("message", m)
	c.Note("blockSize", bs)
	p := util.PKCS5Padding(src, bs)
	same(c, "pkcs5", p, append(clone(m), bytes.Repeat([]byte{byte(n)}, n)...), "PKCS5Padding of %d bytes to %d", len(m), bs)
	z := util.ZeroPadding(src, bs)
	same(c, "zero", z, append(clone(m), make([]byte, n)...), "ZeroPadding of %d bytes to %d", len(m), bs)
	if d := f.Changed(); d != "" {
		c.Fail("pad-wrote", "padding wrote outside its result: %s", d)
	}
	// the first result must survive the second call, and unpadding restores m
	same(c, "pkcs5-roundtrip", util.PKCS5UnPadding(p), m, "PKCS5UnPadding(PKCS5Padding) of %d bytes, block %d", len(m), bs)
	same(c, "zero-roundtrip", util.UnZeroPadding(z, n), m, "UnZeroPadding(ZeroPadding) of %d bytes, block %d", len(m), bs)
	same(c, "pkcs5-kept", p, append(clone(m), bytes.Repeat([]byte{byte(n)}, n)...), "an earlier PKCS5Padding result")
	// writing to the results must not reach the caller's memory
	for i := len(m); i < len(p); i++ {
		p[i] ^= 0xff
	}
	for i := len(m); i < len(z); i++ {
		z[i] ^= 0xff
	}
	if d := f.Changed(); d != "" {
		c.Fail("pad-alias", "pad bytes live in the caller's memory: %s", d)
	}
	c.Ev("padded")
}

func c05Pad(c *mon.Case) {
	bs := 1 + c.Idx
	for n := 0; n <= 2*bs+1; n++ {
		m := c.Bytes(n)
		if n > 0 && c.IntN(3) == 0 {
			m[n-1] = byte(c.IntN(3)) * byte(bs)
		}
		c05One(c, m, bs)
		c.Distinct(bs, n)
	}
	c.Sample("block size %d, lengths 0..%d", bs, 2*bs+1)
}

func c05Long(c *mon.Case) {
	for i := 0; i < 5; i++ {
		n := c.IntN(5000)
		if c.Idx%8 == 0 && i == 0 { // around the sizes of narrow integers
			n = []int{1 << 15, 1 << 16, 1 << 16, 1 << 17, 3 << 16, 1 << 20}[c.IntN(6)] + c.IntN(600) - 300
			c.Ev("very-long")
		}
		m := c.Msg(n)
		bs := 1 + c.IntN(255)
		c05One(c, m, bs)
		c.Distinct(bs, m)
	}
}

func c05Unpad(c *mon.Case) {
	for i := 0; i < 20; i++ {
		m := c.Msg(anyLen(c, 700))
		if c.IntN(8) == 0 {
			m = nil
		}
		if len(m) > 0 && c.IntN(2) == 0 {
			m[len(m)-1] = byte(len(m) + c.IntN(5) - 2)
		}
		f := c.Freeze(m)
		c.Note("input", m)
		var out []byte
		c.NoPanic("PKCS5UnPadding", func() { out = util.PKCS5UnPadding(f.B) })
		if !bytes.HasPrefix(m, out) {
			c.Fail("unpad-prefix", "PKCS5UnPadding returned %x, not a prefix of %x", out, m)
		}
		if d := f.Changed(); d != "" {
			c.Fail("unpad-modified", "PKCS5UnPadding modified its input: %s", d)
		}
		c.Ev("unpadded-hostile")
		c.Distinct(m)
	}
}

func c05Pipeline(c *mon.Case) {
	key, iv := c.Bytes(16), c.Bytes(16)
	m := c.Msg(anyLen(c, 300))
	c.Note("key", key)
	c.Note("message", m)
	e, err := sm4.CBCEncrypt(key, iv, util.PKCS5Padding(m, sm4.BlockSize))
	c.Check(err == nil, "pipeline", "CBCEncrypt of padded data: %v", err)
	c.Check(len(e) == (len(m)/16+1)*16, "pipeline-len", "padded ciphertext of %d bytes has length %d", len(m), len(e))
	d, err := sm4.CBCDecrypt(key, iv, e)
	c.Check(err == nil, "pipeline", "CBCDecrypt: %v", err)
	same(c, "pipeline-cbc", util.PKCS5UnPadding(d), m, "CBC with PKCS5 padding")
	e, err = sm4.ECBEncrypt(key, util.PKCS5Padding(m, sm4.BlockSize))
	c.Check(err == nil, "pipeline", "ECBEncrypt of padded data: %v", err)
	d, err = sm4.ECBDecrypt(key, e)
	c.Check(err == nil, "pipeline", "ECBDecrypt: %v", err)
	same(c, "pipeline-ecb", util.PKCS5UnPadding(d), m, "ECB with PKCS5 padding")
	c.EvN("pipeline", 2)
	c.Distinct(m)
}
