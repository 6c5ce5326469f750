package props

import (
	"encoding/binary"
	"math"
	"strconv"

	"vharness/mon"
	"vharness/ref"
)

// C28 is built for a 32-bit platform: the other properties' workloads and
// oracles, thinned out, decide there what they decide here.

// notOn32 lists what does not fit into 32 bits.
var notOn32 = map[string]bool{"C01 huge-write": true}

// wholeOn32 lists the workloads that run in full.
var wholeOn32 = map[string]bool{"C01 long-stream": true}

func init() {
	late = append(late, func() {
		p := &mon.Prop{
			ID:   "C28",
			Rule: "on a 32-bit platform every operation meets the oracles of the other properties",
			Need: map[string]int64{},
		}
		for _, q := range registry {
			if q.Race || q.Alone {
				continue
			}
			for _, w := range q.Workloads {
				if notOn32[q.ID+" "+w.Name] {
					continue
				}
				part := mon.Part(q, w, func(w *mon.Workload, tier string) int {
					n, div := w.Quick, 12
					if tier == "thorough" {
						n, div = w.Thorough, 24
						if n == 0 {
							n = w.Quick
						}
					}
					if wholeOn32[q.ID+" "+w.Name] {
						return n
					}
					return (n + div - 1) / div
				})
				p.Workloads = append(p.Workloads, part)
				p.Need[q.ID+" cases"] += int64(part.Quick)
			}
		}
		p.Workloads = append(p.Workloads, mon.Workload{Name: "longest-key", Quick: 1, Thorough: 8, CPUSeconds: 600, Run: c28LongestKey})
		p.Need["C28 longest-key"] = 1
		register(p)
	})
}

// c28LongestKey agrees on a key of as many bits as an int holds.
func c28LongestKey(c *mon.Case) {
	if strconv.IntSize != 32 {
		c.Ev("C28 longest-key")
		return // two to the sixtieth bytes
	}
	a, b := anyParty(c), anyParty(c)
	pb, rb := b.pub(), b.eph()
	bits := math.MaxInt - c.Idx
	c.Note("bits", bits)
	res, err := kxCall(c, false, bits, nil, a, pb, rb, b.id)
	if err != nil {
		c.Fail("refused", "a key of %d bits is refused: %v", bits, err)
	}
	n := bits/8 + (bits%8+7)/8
	c.Check(len(res.Key) == n, "length", "a key of %d bits has %d bytes", bits, len(res.Key))
	want, err := ref.SM2.KX(false, 256, a.d, a.r, a.id, pb, rb, b.id)
	if err != nil {
		c.Fail("harness", "%v", err)
	}
	seed := append(append(ref.B32(want.U.X), ref.B32(want.U.Y)...), append(ref.SM2.Z(pb, b.id), ref.SM2.Z(a.pub(), a.id)...)...)
	for _, i := range []int{0, 1, 1<<16 - 1, 1 << 16, 1<<22 + 3, (n - 1) / 32} {
		w := ref.SM3(seed, binary.BigEndian.AppendUint32(nil, uint32(i+1)))
		got := res.Key[32*i:]
		if len(got) > 32 {
			got = got[:32]
		}
		same(c, "block", got, w[:len(got)], "block %d of a key of %d bits", i, bits)
	}
	c.Ev("C28 longest-key")
	c.Distinct(bits)
}
