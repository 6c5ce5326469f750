package props

import (
	"bytes"
	"crypto/hmac"
	"hash"

	"github.com/ZZMarquis/gm/sm3"

	"vharness/mon"
	"vharness/ref"
)

// writeAll writes p in pieces chosen by next, checking Write's results.
func writeAll(c *mon.Case, h hash.Hash, p []byte, next func(left int) int) int {
	n := 0
	for len(p) > 0 {
		k := next(len(p))
		if k > len(p) {
			k = len(p)
		}
		w, err := h.Write(p[:k])
		if w != k || err != nil {
			c.Fail("write-result", "Write(%d bytes) returned %d, %v", k, w, err)
		}
		p = p[k:]
		n++
	}
	return n
}

func init() {
	register(&mon.Prop{
		ID:   "C01",
		Rule: "each case hashes messages (lengths 0..1100 one by one, every two-way split of every length up to 200, random multi-way chunkings incl. empty writes, MB messages, messages written over one another in the same memory, and streams crossing 2^29, 2^31 and 2^32 bytes) with the library and compares with an independent SM3; a case is distinct by message bytes and chunk plan",
		Workloads: []mon.Workload{
			{Name: "lengths", Quick: 1101, Thorough: 4200, Run: c01Lengths},
			{Name: "splits", Quick: 201, Thorough: 520, Run: c01Splits},
			{Name: "chunks", Quick: 600, Thorough: 20000, Run: c01Chunks},
			{Name: "big", Quick: 8, Thorough: 100, Run: c01Big},
			{Name: "bitflips", Quick: 40, Thorough: 600, Run: c01Words},
			{Name: "long-stream", Quick: 2, Thorough: 2, CPUSeconds: 900, Run: c01Long},
			{Name: "reused", Quick: 1500, Thorough: 40000, Run: c01Reused},
			{Name: "huge-write", Quick: 1, Thorough: 1, CPUSeconds: 900, Run: c01Huge},
		},
		Need: map[string]int64{"digests-compared": 10000, "long-boundaries": 300, "same-memory": 5000},
	})
	register(&mon.Prop{
		ID:   "C02",
		Rule: "each case runs a random program of Write/Sum/Reset/Size/BlockSize over 1-4 digest objects against a model that remembers the bytes written, with Sum prefixes in guarded memory, or computes HMACs; distinct by operation trace",
		Workloads: []mon.Workload{
			{Name: "programs", Quick: 12000, Thorough: 400000, Run: c02Programs},
			{Name: "hmac", Quick: 3000, Thorough: 100000, Run: c02HMAC},
		},
		Need: map[string]int64{"sum": 5000, "write": 5000, "reset": 1000, "hmac": 500, "long-write": 50},
	})
}

func c01Cmp(c *mon.Case, m []byte, h hash.Hash) {
	want := ref.SM3(m)
	got := h.Sum(nil)
	same(c, "stream", got, want, "streamed digest of %d bytes", len(m))
	c.Ev("digests-compared")
}

func c01Lengths(c *mon.Case) {
	n := c.Idx
	for t := 0; t < 3; t++ {
		m := c.Msg(n)
		c.Note("message", m)
		f := c.Freeze(m)
		s := sm3.Sum(f.B)
		same(c, "oneshot", s[:], ref.SM3(m), "one-shot digest of %d bytes", n)
		h := sm3.New()
		h.Write(f.B)
		c01Cmp(c, m, h)
		if d := f.Changed(); d != "" {
			c.Fail("input-modified", "hashing modified its input: %s", d)
		}
		c.Ev("digests-compared")
		c.Distinct(m)
		c.Sample("len=%d digest=%x", n, s)
	}
}

func c01Splits(c *mon.Case) {
	n := c.Idx
	m := c.Bytes(n)
	c.Note("message", m)
	want := ref.SM3(m)
	for k := 0; k <= n; k++ {
		h := sm3.New()
		h.Write(m[:k])
		if k%7 == 0 {
			h.Write(nil)
		}
		h.Write(m[k:])
		same(c, "split", h.Sum(nil), want, "%d bytes split at %d", n, k)
		c.Ev("digests-compared")
	}
	c.Distinct(m)
	c.Sample("all %d two-way splits of %d bytes", n+1, n)
}

var chunkSizes = []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 59, 60, 61, 63, 64, 65, 127, 128, 129}

func c01Chunks(c *mon.Case) {
	for i := 0; i < 5; i++ {
		m := c.Msg(anyLen(c, 8192))
		h := sm3.New()
		var plan []int
		mode := c.IntN(3)
		fixed := chunkSizes[1+c.IntN(len(chunkSizes)-1)]
		writeAll(c, h, m, func(left int) int {
			k := fixed
			switch mode {
			case 1:
				k = chunkSizes[c.IntN(len(chunkSizes))]
			case 2:
				k = c.IntN(200)
			}
			plan = append(plan, k)
			return k
		})
		c.Note("message", m)
		c.Note("plan", plan)
		c01Cmp(c, m, h)
		c.Distinct(m, plan)
		c.Sample("len=%d chunks=%v", len(m), plan)
	}
}

func c01Big(c *mon.Case) {
	m := c.Bytes(1<<20 + c.IntN(3<<20))
	h := sm3.New()
	writeAll(c, h, m, func(left int) int { return 1 + c.IntN(1<<18) })
	c01Cmp(c, m, h)
	s := sm3.Sum(m)
	same(c, "oneshot", s[:], ref.SM3(m), "one-shot digest of %d bytes", len(m))
	c.Ev("digests-compared")
	c.Distinct(len(m), m[:32])
}

// c01Words exercises single words of the block: extreme and single-bit words
// in every position of one- and two-block messages.
func c01Words(c *mon.Case) {
	for pos := 0; pos < 32; pos++ {
		m := make([]byte, 128)
		if c.IntN(2) == 0 {
			for i := range m {
				m[i] = 0xff
			}
		}
		w := []uint32{1 << uint(c.IntN(32)), ^uint32(0) ^ 1<<uint(c.IntN(32)), c.Uint32(), 0x80000000, 0x7fffffff}[c.IntN(5)]
		m[4*pos], m[4*pos+1], m[4*pos+2], m[4*pos+3] = byte(w>>24), byte(w>>16), byte(w>>8), byte(w)
		m = m[:64+c.IntN(65)]
		c.Note("message", m)
		s := sm3.Sum(m)
		same(c, "oneshot", s[:], ref.SM3(m), "digest of a patterned block")
		c.Ev("digests-compared")
		c.Distinct(m)
	}
}

// c01Long streams zeros past 2^29 (and 2^31, 2^32) bytes and compares at every
// length around each power of two.
func c01Long(c *mon.Case) {
	stops := []uint64{1 << 29, 1 << 31}
	if c.Idx == 0 {
		stops = []uint64{1 << 32}
	}
	h := sm3.New()
	z := make([]byte, 1<<20)
	var n uint64
	for _, stop := range stops {
		for n+uint64(len(z)) <= stop {
			h.Write(z)
			n += uint64(len(z))
		}
		for n < stop {
			h.Write(z[:stop-n])
			n = stop
		}
		for i := 0; i < 130; i++ {
			same(c, "long", h.Sum(nil), ref.SM3Zeros(n, nil), "digest of %d zero bytes", n)
			c.Ev("digests-compared")
			c.Ev("long-boundaries")
			h.Write(z[:1])
			n++
		}
	}
	c.Distinct("long", stops)
	c.Sample("zero stream of %d bytes, digests compared at every length in the 130 after each of %v", n, stops)
}

// c01Reused hashes a sequence of messages that live, one after another, in the
// same memory, most of them differing in a few bytes only.
func c01Reused(c *mon.Case) {
	buf := c.Bytes(anyLen(c, 700) + 1)
	for i := 0; i < 12; i++ {
		switch c.IntN(6) {
		case 0:
			c.Fill(buf)
		case 1, 2:
			buf[c.IntN(len(buf))] ^= 1 << uint(c.IntN(8))
		case 3:
			buf[0]++
		case 4:
			buf[len(buf)-1]++
		}
		m := buf
		if c.IntN(4) == 0 {
			m = buf[:c.IntN(len(buf)+1)]
		}
		c.Note("message", m)
		want := ref.SM3(m)
		s := sm3.Sum(m)
		same(c, "reused-oneshot", s[:], want, "one-shot digest of %d bytes, number %d in the same memory", len(m), i)
		h := sm3.New()
		k := c.IntN(len(m) + 1)
		h.Write(m[:k])
		h.Write(m[k:])
		same(c, "reused-stream", h.Sum(nil), want, "streamed digest of %d bytes, number %d in the same memory", len(m), i)
		c.EvN("digests-compared", 2)
		c.Ev("same-memory")
		c.Distinct(m)
	}
}

// c01Huge hashes more than 2 GiB in a single call.
func c01Huge(c *mon.Case) {
	n := uint64(1<<31 + 5)
	z := make([]byte, n)
	s := sm3.Sum(z)
	same(c, "huge", s[:], ref.SM3Zeros(n, nil), "digest of 2^31+5 zero bytes in one call")
	c.Ev("digests-compared")
	c.Ev("long-boundaries")
	c.Distinct("huge")
}

func c02Programs(c *mon.Case) {
	type obj struct {
		h hash.Hash
		m []byte
	}
	objs := make([]*obj, 1+c.IntN(4))
	for i := range objs {
		objs[i] = &obj{h: sm3.New()}
	}
	trace := []byte{}
	type earlier struct {
		got, want []byte
	}
	var results []earlier
	n := 5 + c.IntN(40)
	for i := 0; i < n; i++ {
		oi := c.IntN(len(objs))
		o := objs[oi]
		op := c.IntN(12)
		long := c.Idx%100 == 7 && i == 4 // now and then one very long write
		if long {
			op = 0
		}
		trace = append(trace, byte(oi), byte(op))
		c.Note("trace", trace)
		switch {
		case op < 5:
			var p []byte
			switch c.IntN(4) {
			case 0:
				p = c.Msg(chunkSizes[c.IntN(len(chunkSizes))])
			case 1:
				p = c.Msg(c.IntN(8))
			default:
				p = c.Msg(c.IntN(150))
			}
			if long {
				p = make([]byte, 1<<uint(17+c.IntN(5))+c.IntN(130))
				for j := range p {
					p[j] = byte(j>>12 ^ j*5)
				}
				c.Ev("long-write")
			}
			f := c.Freeze(p)
			w, err := o.h.Write(f.B)
			if w != len(p) || err != nil {
				c.Fail("write-result", "Write(%d bytes) returned %d, %v", len(p), w, err)
			}
			if d := f.Changed(); d != "" {
				c.Fail("write-modified", "Write modified its argument: %s", d)
			}
			// the digest must not keep a reference to the written slice
			for j := range f.B {
				f.B[j] ^= 0xff
			}
			o.m = append(o.m, p...)
			trace = append(trace, byte(len(p)))
			c.Ev("write")
		case op < 9:
			want := ref.SM3(o.m)
			times := 1 + c.IntN(2)
			for t := 0; t < times; t++ {
				var prefix []byte
				switch c.IntN(4) {
				case 0:
				case 1:
					prefix = c.Bytes(c.IntN(40))
				case 2:
					prefix = make([]byte, 0, 64)
				case 3:
					prefix = append(make([]byte, 0, 100), c.Bytes(c.IntN(60))...)
				}
				before := clone(prefix)
				got := o.h.Sum(prefix)
				same(c, "sum", got, append(clone(before), want...), "Sum after %d bytes (call %d)", len(o.m), t)
				if !bytes.Equal(prefix, before) {
					c.Fail("sum-prefix", "Sum changed the caller's prefix")
				}
				results = append(results, earlier{got, clone(got)})
				c.Ev("sum")
			}
		case op < 10:
			o.h.Reset()
			o.m = nil
			c.Ev("reset")
		case op < 11:
			if o.h.Size() != 32 || o.h.BlockSize() != 64 {
				c.Fail("sizes", "Size %d BlockSize %d", o.h.Size(), o.h.BlockSize())
			}
			c.Ev("sizes")
		default:
			objs[oi] = &obj{h: sm3.New()}
			c.Ev("new")
		}
	}
	for _, r := range results {
		if !bytes.Equal(r.got, r.want) {
			c.Fail("result-modified", "an earlier Sum result changed later")
		}
	}
	for _, o := range objs {
		same(c, "final-sum", o.h.Sum(nil), ref.SM3(o.m), "final Sum after %d bytes", len(o.m))
	}
	c.Distinct(trace)
	c.Sample("%d objects, trace %x", len(objs), trace)
}

func c02HMAC(c *mon.Case) {
	kl := []int{0, 1, 31, 32, 33, 63, 64, 65, 100, 200}[c.IntN(10)]
	if c.IntN(3) == 0 {
		kl = c.IntN(150)
	}
	key := c.Bytes(kl)
	h := hmac.New(sm3.New, key)
	for round := 0; round < 3; round++ {
		m := c.Msg(anyLen(c, 600))
		writeAll(c, h, m, func(left int) int { return 1 + c.IntN(100) })
		want := ref.HMAC(key, m)
		c.Note("key", key)
		c.Note("message", m)
		same(c, "hmac", h.Sum(nil), want, "HMAC-SM3 with a %d-byte key over %d bytes (round %d)", kl, len(m), round)
		same(c, "hmac-again", h.Sum(nil), want, "HMAC-SM3 summed twice")
		h.Reset()
		c.Ev("hmac")
		c.Distinct(key, m)
	}
}
