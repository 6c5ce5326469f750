package props

import (
	"bytes"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"fmt"
	"math/big"
	"net"
	"sort"
	"strings"
	"time"

	"github.com/ZZMarquis/gm/sm2"
	"github.com/ZZMarquis/gm/sm2/cert"

	"vharness/mon"
	"vharness/ref"
)

func init() {
	register(&mon.Prop{
		ID:   "C22",
		Rule: "cases parse structural and byte-level mutations of certificates and requests and targeted substitutions of algorithms, curves, points and extension contents; whatever parses is compared with an independent reading of the input; distinct by input bytes",
		Workloads: []mon.Workload{
			{Name: "tree", Quick: 4800, Thorough: 38400, Run: c22Tree},
			{Name: "bytes", Quick: 3200, Thorough: 25600, Run: c22Bytes},
			{Name: "truncate", Quick: 240, Thorough: 1920, Run: c22Truncate},
			{Name: "substitute", Quick: 2000, Thorough: 16000, Run: c22Substitute},
			{Name: "extensions", Quick: 2400, Thorough: 19200, Run: c22Extensions},
			{Name: "random", Quick: 1600, Thorough: 12800, Run: c22Random},
		},
		Need: map[string]int64{"parsed": 3000, "refused": 20000, "substitution-refused": 3000, "extension-refused": 1000},
	})
	register(&mon.Prop{
		ID:   "C23",
		Rule: "cases encode random extension contents with this library, with the standard library and with an independent encoder (including forms neither builder produces), and compare the two parsers' readings field by field; distinct by DER",
		Workloads: []mon.Workload{
			{Name: "gm-to-std", Quick: 80000, Thorough: 640000, Run: c23ToStd},
			{Name: "std-to-gm", Quick: 80000, Thorough: 640000, Run: c23FromStd},
			{Name: "foreign", Quick: 160000, Thorough: 1280000, Run: c23Foreign},
			{Name: "critical", Quick: 6000, Thorough: 48000, Run: c23Critical},
			{Name: "key-usage", Quick: 512, Thorough: 512, Run: c23KeyUsage},
			{Name: "requests", Quick: 40000, Thorough: 320000, Run: c23Requests},
			{Name: "names", Quick: 4000, Thorough: 64000, Run: c23Names},
		},
		Need: map[string]int64{"template-values": 1000, "critical-agree": 1000, "gm-to-std": 15000, "std-to-gm": 15000, "foreign-agree": 20000, "key-usages": 512, "requests-agree": 5000, "own-attributes": 3000, "names-accepted": 5000, "names-refused": 5000},
	})
}

// ---- an independent certificate builder ----

type rawExt struct {
	oid      asn1.ObjectIdentifier
	critical bool
	value    []byte
}

func oidDER(o asn1.ObjectIdentifier) []byte {
	var b []byte
	base128 := func(x uint64) {
		var t []byte
		t = append(t, byte(x&0x7f))
		for x >>= 7; x > 0; x >>= 7 {
			t = append([]byte{byte(x&0x7f) | 0x80}, t...)
		}
		b = append(b, t...)
	}
	base128(uint64(o[0])*40 + uint64(o[1]))
	for _, x := range o[2:] {
		base128(uint64(x))
	}
	return ref.TLV(6, b)
}

func extDER(e rawExt) []byte {
	if e.critical {
		return ref.TLV(0x30, oidDER(e.oid), []byte{1, 1, 0xff}, ref.TLV(4, e.value))
	}
	return ref.TLV(0x30, oidDER(e.oid), ref.TLV(4, e.value))
}

type certSpec struct {
	version                    []byte // the [0] element, nil for v1
	serial                     *big.Int
	inner, outer               []byte
	issuer, subject, spki      []byte
	validity, uniques, extsRaw []byte
	sig                        []byte
}

func goodSpec(c *mon.Case, exts []rawExt) *certSpec {
	s := &certSpec{version: []byte{0xa0, 3, 2, 1, 2}, serial: num(int64(1 + c.IntN(1<<30))), inner: sm2SigAlg, outer: sm2SigAlg,
		issuer: rawName(pkix.Name{CommonName: "ca"}), subject: rawName(pkix.Name{CommonName: "subject", Country: []string{"CN"}}),
		spki: spkiOf(poolPoint(c)), validity: validityDER(time.Unix(1600000000, 0), time.Unix(1900000000, 0)),
		sig: ref.SigDER(int256(c), int256(c))}
	if exts != nil {
		var b []byte
		for _, e := range exts {
			b = append(b, extDER(e)...)
		}
		s.extsRaw = ref.TLV(0xa3, ref.TLV(0x30, b))
	}
	return s
}

func int256(c *mon.Case) *big.Int { return new(big.Int).SetBytes(c.Bytes(32)) }

// poolPoint is one of a few points on the curve.
func poolPoint(c *mon.Case) ref.Pt { return ref.SM2.MulG(num(int64(1 + c.IntN(50)))) }

func (s *certSpec) tbs() []byte {
	return ref.TLV(0x30, s.version, ref.DERInt(s.serial), s.inner, s.issuer, s.validity, s.subject, s.spki, s.uniques, s.extsRaw)
}

func (s *certSpec) der() []byte { return assemble(s.tbs(), s.outer, s.sig) }

// seeds for mutation

func seedExts(c *mon.Case) []rawExt {
	var l []rawExt
	for _, o := range overridable {
		if c.IntN(2) == 0 {
			l = append(l, rawExt{o, c.IntN(2) == 0, validExtValue(c, o)})
		}
	}
	if c.IntN(2) == 0 {
		for _, o := range overridable {
			if c.IntN(4) == 0 {
				l = append(l, rawExt{o, c.IntN(2) == 0, foreignValue(c, o)})
			}
		}
	}
	if c.IntN(3) == 0 {
		l = append(l, rawExt{anyOID(c), c.IntN(2) == 0, c.Bytes(c.IntN(10))})
	}
	return l
}

func seedCert(c *mon.Case) []byte {
	s := goodSpec(c, seedExts(c))
	if c.IntN(3) == 0 {
		s.issuer, s.subject = rawName(anyName(c)), rawName(anyName(c))
	}
	if c.IntN(4) == 0 {
		s.uniques = append(ref.TLV(0x81, []byte{0}, c.Bytes(c.IntN(9))), ref.TLV(0x82, []byte{0}, c.Bytes(c.IntN(9)))...)
	}
	if c.IntN(6) == 0 {
		s.version = nil
	}
	return s.der()
}

func seedReq(c *mon.Case) []byte {
	var attrs []byte
	for i := c.IntN(3); i > 0; i-- {
		attrs = append(attrs, ref.TLV(0x30, []byte{6, 9, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 9, 7}, ref.TLV(0x31, ref.TLV(0x0c, []byte(anyStr(c)))))...)
	}
	if c.IntN(4) > 0 {
		var b []byte
		for _, e := range seedExts(c) {
			b = append(b, extDER(e)...)
		}
		attrs = append(attrs, ref.TLV(0x30, []byte{6, 9, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 9, 14}, ref.TLV(0x31, ref.TLV(0x30, b)))...)
	}
	subj := rawName(anyName(c))
	tbs := ref.TLV(0x30, []byte{2, 1, 0}, subj, spkiOf(poolPoint(c)), ref.TLV(0xa0, attrs))
	return assemble(tbs, sm2SigAlg, ref.SigDER(int256(c), int256(c)))
}

// ---- structural mutation ----

type node struct {
	tag  byte
	kids []*node
	leaf []byte
	// forced header bytes, when the length is to lie
	head []byte
}

// parseTree opens constructed elements, and primitive strings that hold DER.
func parseTree(b []byte, depth int) ([]*node, bool) {
	es, err := elems(b)
	if err != nil || len(es) == 0 {
		return nil, false
	}
	var out []*node
	for _, e := range es {
		n := &node{tag: e.tag, leaf: e.body}
		if depth < 12 && (e.tag&0x20 != 0 || e.tag == 4) {
			if k, ok := parseTree(e.body, depth+1); ok {
				n.kids, n.leaf = k, nil
			}
		}
		out = append(out, n)
	}
	return out, true
}

func (n *node) enc() []byte {
	body := n.leaf
	if n.kids != nil {
		body = nil
		for _, k := range n.kids {
			body = append(body, k.enc()...)
		}
	}
	if n.head != nil {
		return append(append([]byte{n.tag}, n.head...), body...)
	}
	return append(append([]byte{n.tag}, ref.DERLen(len(body))...), body...)
}

func allNodes(l []*node, out []*node) []*node {
	for _, n := range l {
		out = append(out, n)
		out = allNodes(n.kids, out)
	}
	return out
}

var hostileLeaves = [][]byte{{}, {0}, {0xff}, {0x80}, {0, 0}, {0xff, 0xff}, {0x7f}, {0x30, 0}, {0x05, 0}, {0x30, 0x80, 0, 0}, bytes.Repeat([]byte{0xff}, 40), bytes.Repeat([]byte{0x80}, 12), bytes.Repeat([]byte{0}, 33)}

var hostileTags = []byte{0, 1, 2, 3, 4, 5, 6, 9, 10, 12, 0x13, 0x14, 0x16, 0x17, 0x18, 0x1e, 0x1c, 0x1f, 0x30, 0x31, 0x80, 0x81, 0x82, 0x86, 0x87, 0x9f, 0xa0, 0xa1, 0xa2, 0xa3, 0xbf, 0xff, 0x3f, 0x24, 0x23}

func mutateTree(c *mon.Case, roots []*node) {
	for k := 1 + c.IntN(3); k > 0; k-- {
		ns := allNodes(roots, nil)
		n := ns[c.IntN(len(ns))]
		switch c.IntN(12) {
		case 0:
			n.tag = hostileTags[c.IntN(len(hostileTags))]
		case 1:
			n.tag ^= 1 << c.IntN(8)
		case 2:
			n.kids, n.leaf = nil, hostileLeaves[c.IntN(len(hostileLeaves))]
		case 3:
			if n.kids == nil {
				n.leaf = append(clone(n.leaf), c.Bytes(1+c.IntN(4))...)
			} else {
				n.kids = append(n.kids, &node{tag: hostileTags[c.IntN(len(hostileTags))], leaf: c.Bytes(c.IntN(5))})
			}
		case 4:
			if n.kids == nil {
				if len(n.leaf) > 0 {
					n.leaf = n.leaf[:c.IntN(len(n.leaf))]
				}
			} else {
				i := c.IntN(len(n.kids))
				n.kids = append(append([]*node{}, n.kids[:i]...), n.kids[i+1:]...)
				if len(n.kids) == 0 {
					n.leaf = []byte{}
					n.kids = nil
				}
			}
		case 5:
			if len(n.kids) > 0 {
				n.kids = append(append([]*node{}, n.kids...), n.kids[c.IntN(len(n.kids))])
			}
		case 6:
			if len(n.kids) > 1 {
				i, j := c.IntN(len(n.kids)), c.IntN(len(n.kids))
				n.kids = append([]*node{}, n.kids...)
				n.kids[i], n.kids[j] = n.kids[j], n.kids[i]
			}
		case 7:
			// a lying or odd length
			n.head = [][]byte{{0x80}, {0x84, 0xff, 0xff, 0xff, 0xff}, {0x84, 0x7f, 0xff, 0xff, 0xff}, {0x88, 0, 0, 0, 0, 0, 0, 0, 1}, {0x81, 0x05}, {0x82, 0, 0x80}, {0xff}, {0}, {1}, {byte(c.IntN(256))}}[c.IntN(10)]
		case 8:
			if n.kids == nil && len(n.leaf) > 0 {
				n.leaf = clone(n.leaf)
				n.leaf[c.IntN(len(n.leaf))] ^= 1 << c.IntN(8)
			}
		case 9:
			if n.kids == nil && len(n.leaf) > 0 {
				n.leaf = clone(n.leaf)
				n.leaf[c.IntN(len(n.leaf))] = byte(c.IntN(256))
			}
		case 10:
			// graft another part of the tree
			o := ns[c.IntN(len(ns))]
			if !contains(o, n) {
				n.tag, n.kids, n.leaf, n.head = o.tag, o.kids, o.leaf, o.head
			}
		case 11:
			// wrap
			in := *n
			n.tag, n.kids, n.leaf, n.head = hostileTags[c.IntN(len(hostileTags))], []*node{&in}, nil, nil
		}
	}
}

func contains(o, n *node) bool {
	if o == n {
		return true
	}
	for _, k := range o.kids {
		if contains(k, n) {
			return true
		}
	}
	return false
}

// ---- the oracle for arbitrary input ----

func c22Look(c *mon.Case, der []byte, req bool) bool {
	f := c.Freeze(der)
	ok := false
	c.NoPanic("panic", func() {
		if req {
			q, err := cert.ParseCertificateRequest(f.B)
			if (q == nil) == (err == nil) {
				c.Fail("result", "request %v with error %v", q != nil, err)
			}
			if err != nil {
				return
			}
			ok = true
			c22Sections(c, der, true, q.Raw, q.RawTBSCertificateRequest, nil, q.RawSubject, q.RawSubjectPublicKeyInfo, q.Signature, q.PublicKey)
			_ = q.Subject.String()
			cert.VerifyCSRSign(q, nil)
			t := &x509.Certificate{SerialNumber: num(1), NotBefore: time.Unix(1600000000, 0), NotAfter: time.Unix(1700000000, 0)}
			cert.FillCertificateTemplateByCSR(t, q)
			cert.CreateCertificateInfo(t, t, q)
		} else {
			x, err := cert.ParseCertificate(f.B)
			if (x == nil) == (err == nil) {
				c.Fail("result", "certificate %v with error %v", x != nil, err)
			}
			if err != nil {
				return
			}
			ok = true
			c22Sections(c, der, false, x.Raw, x.RawTBSCertificate, x.RawIssuer, x.RawSubject, x.RawSubjectPublicKeyInfo, x.Signature, x.PublicKey)
			_ = x.Subject.String() + x.Issuer.String()
			c.Check(x.SerialNumber != nil, "no-serial", "a parsed certificate has no serial number")
		}
	})
	c.Check(f.Changed() == "", "input-modified", "%s", f.Changed())
	if ok {
		c.Ev("parsed")
	} else {
		c.Ev("refused")
	}
	return ok
}

func c22Sections(c *mon.Case, der []byte, req bool, raw, tbs, issuer, subject, spki, sig []byte, pub any) {
	c.Note("der", der)
	same(c, "raw", raw, der, "Raw against the input")
	p, ok := pub.(*sm2.PublicKey)
	if !ok || p == nil || p.X == nil || p.Y == nil {
		c.Fail("key-type", "public key is %T", pub)
	}
	pt := ref.Pt{X: p.X, Y: p.Y}
	c.Check(p.X.Sign() >= 0 && p.Y.Sign() >= 0 && p.X.Cmp(bigP) < 0 && p.Y.Cmp(bigP) < 0 && ref.SM2.On(pt), "key-point", "the parsed public key is not on the curve: %x %x", p.X, p.Y)
	var parts *certParts
	if req {
		if r, err := readReq(der); err == nil {
			parts = &r.certParts
		}
	} else if r, err := readCert(der); err == nil {
		parts = r
	}
	if parts != nil {
		same(c, "raw-tbs", tbs, parts.tbs, "signed part")
		same(c, "raw-subject", subject, parts.subject, "RawSubject")
		same(c, "raw-spki", spki, parts.spki, "RawSubjectPublicKeyInfo")
		same(c, "raw-signature", sig, parts.sig, "Signature")
		if !req {
			same(c, "raw-issuer", issuer, parts.issuer, "RawIssuer")
			ai, e1 := seqOf(parts.innerAlg)
			ao, e2 := seqOf(parts.outerAlg)
			c.Check(e1 == nil && e2 == nil && bytes.Equal(ai[0].full, oidSM2Sig) && bytes.Equal(ao[0].full, oidSM2Sig), "algorithm-accepted", "accepted with signature algorithms %x and %x", parts.innerAlg, parts.outerAlg)
		} else {
			ao, e2 := seqOf(parts.outerAlg)
			c.Check(e2 == nil && bytes.Equal(ao[0].full, oidSM2Sig), "algorithm-accepted", "accepted with signature algorithm %x", parts.outerAlg)
		}
		c.Check(bytes.Equal(parts.spkiAlgOID, oidECKey) && bytes.Equal(parts.spkiParams, oidSM2Curve), "key-algorithm-accepted", "accepted with key algorithm %x %x", parts.spkiAlgOID, parts.spkiParams)
		same(c, "key-point", append(append([]byte{4}, ref.B32(p.X)...), ref.B32(p.Y)...), parts.spkiKey, "parsed public key")
		c.Ev("sections-exact")
		return
	}
	for _, s := range [][]byte{tbs, subject, spki} {
		c.Check(isSub(der, s), "sub-range", "a raw section is not part of the input: %x", s)
	}
	if !req {
		c.Check(isSub(der, issuer), "sub-range", "the raw issuer is not part of the input: %x", issuer)
	}
	c.Ev("sections-contained")
}

func c22Seed(c *mon.Case) ([]byte, bool) {
	if c.IntN(3) == 0 {
		return seedReq(c), true
	}
	return seedCert(c), false
}

func c22Tree(c *mon.Case) {
	der, req := c22Seed(c)
	for i := 0; i < 30; i++ {
		roots, ok := parseTree(der, 0)
		if !ok {
			c.Fail("harness", "the seed is not DER")
		}
		mutateTree(c, roots)
		m := roots[0].enc()
		if len(m) > 1<<16 {
			continue
		}
		c.Note("der", m)
		ok = c22Look(c, m, req)
		c.Distinct(m)
		if ok {
			c.Sample("structural mutation of %d bytes still parses", len(m))
		}
	}
}

func c22Bytes(c *mon.Case) {
	der, req := c22Seed(c)
	for i := 0; i < 30; i++ {
		m := clone(der)
		for k := 1 + c.IntN(3); k > 0 && len(m) > 1; k-- {
			at := c.IntN(len(m))
			switch c.IntN(6) {
			case 0, 1:
				m[at] ^= 1 << c.IntN(8)
			case 2:
				m[at] = []byte{0, 1, 0x7f, 0x80, 0x81, 0x84, 0xff, 0x30, 0x1f}[c.IntN(9)]
			case 3:
				m = append(m[:at], append(c.Bytes(1+c.IntN(3)), m[at:]...)...)
			case 4:
				e := at + 1 + c.IntN(3)
				if e > len(m) {
					e = len(m)
				}
				m = append(m[:at], m[e:]...)
			case 5:
				m[at] += byte(c.IntN(3)) - 1
			}
		}
		c.Note("der", m)
		c22Look(c, m, req)
		c.Distinct(m)
	}
}

func c22Truncate(c *mon.Case) {
	der, req := c22Seed(c)
	if !c22Look(c, der, req) && !req {
		// seeds with foreign extensions may be refused; nothing to cut then
		c.Ev("seed-refused")
	}
	for i := 0; i < len(der); i++ {
		c.Note("der", der[:i])
		if c22Look(c, der[:i], req) {
			c.Fail("truncated-accepted", "an input cut from %d to %d bytes parses", len(der), i)
		}
	}
	for i := 0; i < 20; i++ {
		m := append(clone(der), c.Bytes(1+c.IntN(4))...)
		if i == 0 {
			m = append(clone(der), 0)
		}
		if i == 1 {
			m = append(clone(der), der...)
		}
		c.Note("der", m)
		if c22Look(c, m, req) {
			c.Fail("trailing-accepted", "an input with %d trailing bytes parses", len(m)-len(der))
		}
	}
}

func c22Random(c *mon.Case) {
	for i := 0; i < 10; i++ {
		var m []byte
		switch c.IntN(3) {
		case 0:
			m = c.Bytes(c.IntN(200))
		case 1:
			m = ref.TLV(0x30, ref.TLV(0x30, c.Bytes(c.IntN(60))), sm2SigAlg, ref.TLV(3, []byte{0}, c.Bytes(c.IntN(40))))
		case 2:
			// deep nesting
			m = []byte{5, 0}
			t := hostileTags[c.IntN(len(hostileTags))] | 0x20
			for k := c.IntN(3000); k > 0; k-- {
				m = ref.TLV(t, m)
			}
			m = ref.TLV(0x30, m)
		}
		c.Note("der", m)
		c22Look(c, m, c.IntN(2) == 0)
		c.Distinct(m)
	}
	c.NoPanic("panic", func() {
		for _, b := range [][]byte{nil, {}, {0x30}, {0x30, 0}, {0x30, 0x80}} {
			x, e1 := cert.ParseCertificate(b)
			q, e2 := cert.ParseCertificateRequest(b)
			c.Check(x == nil && q == nil && e1 != nil && e2 != nil, "empty-accepted", "input %x parses", b)
		}
	})
}

var otherSigOIDs = [][]byte{
	oidECDSA256,
	{6, 8, 0x2a, 0x81, 0x1c, 0xcf, 0x55, 1, 0x83, 0x74},    // ...500
	{6, 8, 0x2a, 0x81, 0x1c, 0xcf, 0x55, 1, 0x83, 0x76},    // ...502
	{6, 8, 0x2a, 0x81, 0x1c, 0xcf, 0x55, 1, 0x83, 0x78},    // rsa with sm3
	{6, 8, 0x2a, 0x81, 0x1c, 0xcf, 0x55, 1, 0x82, 0x2d},    // the curve
	{6, 9, 0x2a, 0x81, 0x1c, 0xcf, 0x55, 1, 0x83, 0x75, 1}, // one arc more
	{6, 6, 0x2a, 0x81, 0x1c, 0xcf, 0x55, 1},                // one arc less
	{6, 9, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 11},
	{6, 7, 0x2a, 0x81, 0x1c, 0xcf, 0x55, 1, 0x75},
}

var otherKeyOIDs = [][]byte{
	{6, 9, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 1}, // rsa
	{6, 7, 0x2a, 0x86, 0x48, 0xce, 0x3d, 2, 2},
	{6, 8, 0x2a, 0x86, 0x48, 0xce, 0x3d, 2, 1, 1},
	{6, 6, 0x2a, 0x86, 0x48, 0xce, 0x3d, 2},
	{6, 3, 0x2b, 0x65, 0x70}, // ed25519
	{6, 8, 0x2a, 0x81, 0x1c, 0xcf, 0x55, 1, 0x82, 0x2d},
	{6, 5, 0x2b, 0x81, 4, 1, 12},
}

var otherCurves = [][]byte{
	oidP256,
	{6, 5, 0x2b, 0x81, 4, 0, 10}, // secp256k1
	{6, 5, 0x2b, 0x81, 4, 0, 34},
	{6, 8, 0x2a, 0x81, 0x1c, 0xcf, 0x55, 1, 0x82, 0x2e},
	{6, 9, 0x2a, 0x81, 0x1c, 0xcf, 0x55, 1, 0x82, 0x2d, 1},
	{6, 6, 0x2a, 0x81, 0x1c, 0xcf, 0x55, 1},
	{5, 0}, nil, {0x30, 0}, {2, 1, 1}, {4, 0},
	oidSM2Sig,
}

// badPoints are public key strings that no valid key has.
func badPoints(c *mon.Case) map[string][]byte {
	p := poolPoint(c)
	x, y := ref.B32(p.X), ref.B32(p.Y)
	cat := func(tag byte, l ...[]byte) []byte { return append([]byte{tag}, bytes.Join(l, nil)...) }
	m := map[string][]byte{
		"compressed even":  cat(2, x),
		"compressed odd":   cat(3, x),
		"hybrid":           cat(6+byte(p.Y.Bit(0)), x, y),
		"no prefix":        append(clone(x), y...),
		"empty":            {},
		"infinity":         {0},
		"infinity padded":  make([]byte, 65),
		"zero coordinates": cat(4, make([]byte, 64)),
		"off curve x":      cat(4, ref.B32(add(p.X, 1)), y),
		"off curve y":      cat(4, x, ref.B32(add(p.Y, 1))),
		"swapped":          cat(4, y, x),
		"short":            cat(4, x, y[:31]),
		"long":             cat(4, x, y, []byte{0}),
		"extended":         cat(4, []byte{0}, x, y),
		"y missing":        cat(4, x),
		"p, p":             cat(4, ref.B32(bigP), ref.B32(bigP)),
		"all ones":         cat(4, bytes.Repeat([]byte{0xff}, 64)),
		"prefix 5":         cat(5, x, y),
	}
	stdKey()
	m["p256 key"] = p256SPKIBytes[len(p256SPKIBytes)-65:]
	// x + p for a point with a small abscissa
	for i := int64(c.IntN(50)); ; i++ {
		q, ok := ref.SM2.Lift(num(i), c.IntN(2) == 0)
		if ok && ref.SM2.On(q) {
			m["unreduced x"] = cat(4, ref.B32(new(big.Int).Add(q.X, bigP)), ref.B32(q.Y))
			break
		}
	}
	return m
}

func spkiWith(alg, params, key []byte) []byte {
	return ref.TLV(0x30, ref.TLV(0x30, alg, params), ref.TLV(3, []byte{0}, key))
}

func c22Substitute(c *mon.Case) {
	req := c.IntN(3) == 0
	s := goodSpec(c, []rawExt{{asn1.ObjectIdentifier{2, 5, 29, 15}, true, []byte{3, 2, 1, 6}}})
	build := func(inner, outer, spki, tail []byte) []byte {
		if req {
			tbs := ref.TLV(0x30, []byte{2, 1, 0}, s.subject, spki, ref.TLV(0xa0))
			return append(assemble(tbs, outer, s.sig), tail...)
		}
		t := *s
		t.inner, t.outer, t.spki = inner, outer, spki
		return append(t.der(), tail...)
	}
	ok := build(sm2SigAlg, sm2SigAlg, s.spki, nil)
	c.Note("der", ok)
	if !c22Look(c, ok, req) {
		c.Fail("genuine-refused", "the unmodified input is refused")
	}
	nullAlg := ref.TLV(0x30, oidSM2Sig, []byte{5, 0})
	c.Note("der", build(nullAlg, nullAlg, s.spki, nil))
	c22Look(c, build(nullAlg, nullAlg, s.spki, nil), req)
	refuse := func(what string, der []byte) {
		c.Note("der", der)
		c.Note("what", what)
		if c22Look(c, der, req) {
			c.Fail("accepted", "accepted: %s", what)
		}
		c.Ev("substitution-refused")
		c.Distinct(der)
	}
	p := poolPoint(c)
	key := append(append([]byte{4}, ref.B32(p.X)...), ref.B32(p.Y)...)
	o := ref.TLV(0x30, otherSigOIDs[c.IntN(len(otherSigOIDs))])
	refuse("another signature algorithm", build(o, o, s.spki, nil))
	refuse("another outer signature algorithm", build(sm2SigAlg, o, s.spki, nil))
	if !req {
		refuse("another inner signature algorithm", build(o, sm2SigAlg, s.spki, nil))
		o2 := ref.TLV(0x30, otherSigOIDs[c.IntN(len(otherSigOIDs))])
		refuse("other inner and outer signature algorithms", build(o, o2, s.spki, nil))
	}
	k := otherKeyOIDs[c.IntN(len(otherKeyOIDs))]
	refuse("another key algorithm", build(sm2SigAlg, sm2SigAlg, spkiWith(k, oidSM2Curve, key), nil))
	v := otherCurves[c.IntN(len(otherCurves))]
	refuse("another curve or no curve", build(sm2SigAlg, sm2SigAlg, spkiWith(oidECKey, v, key), nil))
	if !bytes.Equal(v, oidP256) {
		refuse("P-256", build(sm2SigAlg, sm2SigAlg, spkiWith(oidECKey, oidP256, key), nil))
	}
	bp := badPoints(c)
	var names []string
	for what := range bp {
		names = append(names, what)
	}
	sort.Strings(names)
	for _, what := range names {
		b := bp[what]
		if pt, on := pointOf(b); on {
			c.Fail("harness", "%s is a valid point %x", what, pt.X)
		}
		refuse("public key "+what, build(sm2SigAlg, sm2SigAlg, spkiWith(oidECKey, oidSM2Curve, b), nil))
	}
	for n := byte(1); n < 8; n++ {
		// a key with fewer bits than a point has; the unused bits are zero
		for i := int64(1); ; i++ {
			q := ref.SM2.MulG(num(i))
			if q.Y.Bits()[0]&(1<<n-1) != 0 {
				continue
			}
			k := append(append([]byte{4}, ref.B32(q.X)...), ref.B32(q.Y)...)
			refuse(fmt.Sprintf("public key with %d unused bits", n), build(sm2SigAlg, sm2SigAlg, ref.TLV(0x30, ref.TLV(0x30, oidECKey, oidSM2Curve), ref.TLV(3, []byte{n}, k)), nil))
			break
		}
	}
	refuse("trailing byte", build(sm2SigAlg, sm2SigAlg, s.spki, []byte{byte(c.IntN(256))}))
	refuse("trailing element", build(sm2SigAlg, sm2SigAlg, s.spki, []byte{5, 0}))
	c.Sample("genuine accepted, substituted algorithms, curves and %d kinds of bad points refused (request=%v)", len(bp), req)
}

// badExtValues are contents no parser may accept for a known extension.
func badExtValues(c *mon.Case, o asn1.ObjectIdentifier) [][]byte {
	v := validExtValue(c, o)
	out := [][]byte{
		append(clone(v), 0),
		append(clone(v), 5, 0),
		append(clone(v), v...),
		v[:len(v)-1],
		{},
		c.Bytes(1),
		append([]byte{0x31}, v[1:]...),
		{0x0c, 0},
	}
	sub := func(tag byte, val string) []byte {
		return ref.TLV(0x30, ref.TLV(0xa0+byte(c.IntN(2)), ref.TLV(0x30, ref.TLV(tag, []byte(val)))))
	}
	switch o.String() {
	case "2.5.29.17":
		for _, n := range []int{0, 1, 3, 5, 8, 15, 17, 32} {
			out = append(out, ref.TLV(0x30, ref.TLV(0x82, []byte("a.cn")), ref.TLV(0x87, c.Bytes(n))))
		}
		out = append(out, ref.TLV(0x30, ref.TLV(0x86, []byte("http://[::1"))), ref.TLV(0x30, ref.TLV(0x86, []byte(":"))), ref.TLV(0x30, []byte{0x82, 5, 'a'}))
	case "2.5.29.30":
		out = append(out, []byte{0x30, 0}, ref.TLV(0x30, ref.TLV(0xa0)), ref.TLV(0x30, ref.TLV(0xa1)), ref.TLV(0x30, ref.TLV(0xa0), ref.TLV(0xa1)),
			sub(0x82, "a..b"), sub(0x82, "a b"), sub(0x82, "a."), sub(0x82, "\xe4.cn"), sub(0x82, "a\x7fb"),
			sub(0x81, "@x.cn"), sub(0x81, ".a@x.cn"), sub(0x81, "a..b@x.cn"), sub(0x81, "a b@x.cn"), sub(0x81, "\"a@x.cn"), sub(0x81, "a@x..cn"), sub(0x81, "\xff@x.cn"),
			sub(0x86, "1.2.3.4"), sub(0x86, "::1"), sub(0x86, "a..b"), sub(0x86, "\xff.cn"),
			sub(0x87, string(append([]byte{1, 2, 3, 4}, 0xff, 0, 0xff, 0))), sub(0x87, string(append([]byte{1, 2, 3, 4}, 0xfd, 0, 0, 0))), sub(0x87, string(append([]byte{1, 2, 3, 4}, 0xff, 0x7f, 0, 0))),
			sub(0x87, string(c.Bytes(4))), sub(0x87, string(c.Bytes(16))), sub(0x87, string(c.Bytes(7))), sub(0x87, string(c.Bytes(31))), sub(0x87, string(c.Bytes(33))), sub(0x87, ""),
			ref.TLV(0x30, ref.TLV(0xa0, ref.TLV(0x31, ref.TLV(0x82, []byte("a.cn"))))), ref.TLV(0x30, ref.TLV(0xa0, []byte{0x30, 0})),
			ref.TLV(0x30, ref.TLV(0xa1, ref.TLV(0x30, ref.TLV(0x82, []byte("a.cn")))), ref.TLV(0xa0, ref.TLV(0x30, ref.TLV(0x82, []byte("a.cn"))))),
			ref.TLV(0x30, ref.TLV(0xa0, ref.TLV(0x30, ref.TLV(0x82, []byte("a.cn")))), []byte{5, 0}),
		)
	case "2.5.29.15":
		out = append(out, []byte{3, 0}, []byte{3, 1, 1}, []byte{3, 2, 8, 0}, []byte{3, 2, 1, 0xff}, []byte{1, 1, 0xff})
	case "2.5.29.19":
		out = append(out, []byte{0x30, 3, 1, 1, 1}, []byte{0x30, 4, 1, 2, 0xff, 0xff})
	case "2.5.29.37":
		out = append(out, ref.TLV(0x30, []byte{6, 0}), ref.TLV(0x30, []byte{2, 1, 1}), ref.TLV(0x30, []byte{6, 2, 0x2a, 0x80}))
	case "2.5.29.14":
		out = append(out, []byte{3, 2, 0, 1}, []byte{4, 5, 1})
	}
	return out
}

func c22Extensions(c *mon.Case) {
	o := overridable[c.Idx%len(overridable)]
	good := goodSpec(c, []rawExt{{o, false, validExtValue(c, o)}}).der()
	c.Note("der", good)
	if !c22Look(c, good, false) {
		c.Fail("genuine-refused", "a certificate with a well-formed %s is refused", o)
	}
	for _, v := range badExtValues(c, o) {
		exts := []rawExt{{o, c.IntN(2) == 0, v}}
		if c.IntN(2) == 0 {
			exts = append(exts, rawExt{asn1.ObjectIdentifier{1, 2, 3, 4}, false, []byte{1}})
		}
		der := goodSpec(c, exts).der()
		c.Note("der", der)
		c.Note("value", v)
		if c22Look(c, der, false) {
			c.Fail("extension-accepted", "%s with content %x is accepted", o, v)
		}
		c.Ev("extension-refused")
		c.Distinct(v)
	}
	// the same alternative names in a request
	if o.Equal(oidSANExt) {
		for _, v := range badExtValues(c, o) {
			der := reqWithExts([]rawExt{{o, false, v}}, poolPoint(c))
			c.Note("der", der)
			if c22Look(c, der, true) {
				c.Fail("extension-accepted", "a requested %s with content %x is accepted", o, v)
			}
			c.Ev("extension-refused")
		}
	}
	c.Sample("%s: well-formed content accepted, malformed contents refused", o)
}

func reqWithExts(l []rawExt, pt ref.Pt) []byte {
	return reqWithAttrs(extReqAttr(extSeq(l)), pt)
}

func extSeq(l []rawExt) []byte {
	var b []byte
	for _, e := range l {
		b = append(b, extDER(e)...)
	}
	return ref.TLV(0x30, b)
}

func extReqAttr(values ...[]byte) []byte {
	return ref.TLV(0x30, []byte{6, 9, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 9, 14}, ref.TLV(0x31, bytes.Join(values, nil)))
}

// anyAttrs is a list of attributes as no builder here writes them: several
// extension requests, requests with more than one value or none, other
// attributes before, between and after them, and attributes of another form.
func anyAttrs(c *mon.Case) []byte {
	var out []byte
	used := map[string]bool{}
	exts := func() []byte {
		var l []rawExt
		for k := c.IntN(4); k > 0; k-- {
			o, v := anyOID(c), c.Bytes(c.IntN(9))
			if c.IntN(3) == 0 {
				o = oidSANExt
				v = foreignValue(c, o)
			}
			if used[o.String()] && c.IntN(20) > 0 {
				continue
			}
			used[o.String()] = true
			l = append(l, rawExt{o, c.IntN(2) == 0, v})
		}
		return extSeq(l)
	}
	for i := c.IntN(5); i > 0; i-- {
		switch c.IntN(10) {
		case 0: // challengePassword
			out = append(out, ref.TLV(0x30, []byte{6, 9, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 9, 7}, ref.TLV(0x31, ref.TLV(0x13, []byte("secret"))))...)
		case 1:
			var vs []byte
			for k := c.IntN(4); k > 0; k-- {
				vs = append(vs, ref.TLV([]byte{0x30, 4, 0x0c, 5}[c.IntN(4)], nil)...)
			}
			out = append(out, ref.TLV(0x30, oidDER(anyOID(c)), ref.TLV(0x31, vs))...)
		case 2: // not of the form of an attribute
			out = append(out, [][]byte{ref.TLV(0x30, oidDER(anyOID(c))), ref.TLV(0x30), ref.TLV(0x30, oidDER(anyOID(c)), ref.TLV(0x30)), ref.TLV(4, c.Bytes(3)), ref.TLV(0x30, oidDER(anyOID(c)), ref.TLV(0x31, []byte{5, 0}), []byte{5, 0})}[c.IntN(5)]...)
		case 3:
			out = append(out, extReqAttr()...)
		case 4, 5:
			second := ref.TLV(0x30)
			if c.IntN(2) == 0 {
				second = extSeq([]rawExt{{asn1.ObjectIdentifier{1, 2, 3, c.IntN(100)}, false, c.Bytes(3)}})
			}
			if c.IntN(3) == 0 {
				second = []byte{5, 0}
			}
			out = append(out, extReqAttr(exts(), second)...)
		default:
			out = append(out, extReqAttr(exts())...)
		}
	}
	return out
}

func reqWithAttrs(attrs []byte, pt ref.Pt) []byte {
	tbs := ref.TLV(0x30, []byte{2, 1, 0}, rawName(pkix.Name{CommonName: "r"}), spkiOf(pt), ref.TLV(0xa0, attrs))
	return assemble(tbs, sm2SigAlg, ref.SigDER(num(1), num(2)))
}

// ---- C23 ----

func c23Both(c *mon.Case, smDER []byte, key string) (refused bool) {
	c.Note("der", smDER)
	sd, err := toStd(smDER, false)
	if err != nil {
		c.Fail(key+"-structure", "not well-formed: %v", err)
	}
	sx, e1 := x509.ParseCertificate(sd)
	x, e2 := cert.ParseCertificate(smDER)
	if e1 != nil && e2 != nil {
		return true
	}
	if e1 != nil {
		c.Ev("only-here")
		return true
	}
	if e2 != nil {
		c.Fail(key+"-refused", "the standard library reads this certificate, this library says: %v", e2)
	}
	if d := diffMaps(semantics(x), semantics(sx)); d != "" {
		c.Fail(key+"-differs", "read here and by the standard library: %s", d)
	}
	if a, b := extListString(pkixExts(x.Extensions)), extListString(pkixExts(sx.Extensions)); a != b {
		c.Fail(key+"-differs", "extension list:\n%s\nwant\n%s", a, b)
	}
	return false
}

func c23ToStd(c *mon.Case) {
	t := anyTemplate(c)
	if c.IntN(2) == 0 {
		t.ExtraExtensions = nil
	}
	parent := anyParent(c)
	c.Note("template", dumpNoCap(*t))
	tbs, err := cert.CreateCertificateInfo(t, parent, &x509.CertificateRequest{RawSubjectPublicKeyInfo: spkiOf(poolPoint(c))})
	if err != nil {
		c.Fail("create", "a valid template was refused: %v", err)
	}
	der, err := cert.CreateCertificate(tbs, ref.SigDER(int256(c), int256(c)))
	if err != nil {
		c.Fail("create", "%v", err)
	}
	if t.SerialNumber.Sign() == 0 {
		c.Ev("serial-zero")
	}
	if c23Both(c, der, "gm-to-std") {
		c.Ev("gm-to-std-refused")
		return
	}
	// what the standard library reads is what the template says
	sd, _ := toStd(der, false)
	sx, err := x509.ParseCertificate(sd)
	if err != nil {
		c.Fail("harness", "%v", err)
	}
	c21Values(c, sx, &issueIn{t: t, parent: parent})
	if !hasExt(t.ExtraExtensions, "2.5.29.30") && len(t.Subject.ToRDNSequence()) > 0 {
		c.Ev("template-values")
	}
	c.Ev("gm-to-std")
	c.Distinct(der)
}

func c23FromStd(c *mon.Case) {
	t := anyTemplate(c)
	if c.IntN(2) == 0 {
		t.ExtraExtensions = nil
	}
	if t.SerialNumber.Sign() <= 0 {
		t.SerialNumber = num(5)
	}
	for _, o := range t.PolicyIdentifiers {
		var u []uint64
		for _, x := range o {
			u = append(u, uint64(x))
		}
		if oid, err := x509.OIDFromInts(u); err == nil {
			t.Policies = append(t.Policies, oid)
		}
	}
	c.Note("template", dumpNoCap(*t))
	parent := anyParent(c)
	parent.ExtraExtensions = nil
	der, err := x509.CreateCertificate(&fixedRand{}, t, parent, &stdKey().PublicKey, stdKey())
	if err != nil {
		c.Ev("std-refuses-template")
		return
	}
	sm, err := toSM2(der, false, spkiOf(poolPoint(c)))
	if err != nil {
		c.Fail("harness", "%v", err)
	}
	if c23Both(c, sm, "std-to-gm") {
		c.Ev("std-to-gm-refused")
		return
	}
	c.Ev("std-to-gm")
	c.Distinct(sm)
	c.Sample("standard library certificate of %d bytes read identically", len(sm))
}

// foreignValue is a well-formed value that neither builder produces.
func foreignValue(c *mon.Case, o asn1.ObjectIdentifier) []byte {
	dirName := func() []byte { return ref.TLV(0xa4, rawName(pkix.Name{CommonName: anyStr(c)})) }
	otherName := func() []byte {
		return ref.TLV(0xa0, oidDER(anyOID(c)), ref.TLV(0xa0, ref.TLV(0x0c, []byte(anyStr(c)))))
	}
	gn := func() []byte {
		switch c.IntN(8) {
		case 0:
			return otherName()
		case 1:
			return dirName()
		case 2:
			return ref.TLV(0x88, oidDER(anyOID(c))[2:]) // registeredID
		case 3:
			return ref.TLV(0x82, []byte(anyDNS(c)))
		case 4:
			return ref.TLV(0x81, []byte(anyEmail(c)))
		case 5:
			if c.IntN(3) == 0 {
				return ref.TLV(0x87, net.IPv4(byte(c.IntN(256)), 1, 2, 3).To16())
			}
			return ref.TLV(0x87, c.Bytes([]int{4, 16}[c.IntN(2)]))
		case 6:
			if c.IntN(4) == 0 {
				return ref.TLV([]byte{0x81, 0x82, 0x86}[c.IntN(3)]) // an empty name
			}
		}
		return ref.TLV(0x86, []byte(anyURL(c).String()))
	}
	many := func(f func() []byte, max int) []byte {
		var b []byte
		n := c.IntN(max) + 1
		if c.IntN(40) == 0 {
			n = 10 + c.IntN(60)
		}
		for i := n; i > 0; i-- {
			b = append(b, f()...)
		}
		return b
	}
	switch o.String() {
	case "2.5.29.14":
		return ref.TLV(4, c.Bytes(c.IntN(200)))
	case "2.5.29.15":
		n := c.IntN(3) + 1
		b := c.Bytes(n)
		pad := c.IntN(8)
		b[n-1] &^= 1<<pad - 1
		return ref.TLV(3, []byte{byte(pad)}, b)
	case "2.5.29.17":
		return ref.TLV(0x30, many(gn, 5))
	case "2.5.29.19":
		return [][]byte{{0x30, 0}, {0x30, 3, 1, 1, 0xff}, ref.TLV(0x30, []byte{1, 1, 0xff}, ref.DERInt(num(int64(c.IntN(1<<20))))), ref.TLV(0x30, []byte{1, 1, 0xff, 2, 1, 0})}[c.IntN(4)]
	case "2.5.29.30":
		sub := func() []byte {
			var limits []byte
			if c.IntN(4) == 0 { // minimum
				limits = append(limits, 0x80, 1, byte(c.IntN(3)))
			}
			if c.IntN(4) == 0 { // maximum
				limits = append(limits, 0x81, 1, byte(c.IntN(128)))
			}
			base := func(b []byte) []byte { return ref.TLV(0x30, b, limits) }
			switch c.IntN(7) {
			case 0:
				return base(dirName())
			case 1:
				return base(ref.TLV(0x82, []byte(constraintDomain(c))))
			case 2:
				return base(ref.TLV(0x81, []byte(constraintEmail(c))))
			case 3:
				return base(ref.TLV(0x86, []byte(uriDomain(c))))
			case 4:
				n := anyIPNet(c)
				return base(ref.TLV(0x87, []byte(n.IP), []byte(n.Mask))) // host bits left set
			case 5:
				return base(ref.TLV(0x82)) // empty: everything
			}
			return base(ref.TLV(0x82, []byte("."+anyDomain(c))))
		}
		switch c.IntN(3) {
		case 0:
			return ref.TLV(0x30, ref.TLV(0xa0, many(sub, 4)))
		case 1:
			return ref.TLV(0x30, ref.TLV(0xa1, many(sub, 4)))
		}
		return ref.TLV(0x30, ref.TLV(0xa0, many(sub, 4)), ref.TLV(0xa1, many(sub, 4)))
	case "2.5.29.31":
		dp := func() []byte {
			uri := func() []byte {
				if c.IntN(12) == 0 {
					return ref.TLV(0x86)
				}
				return ref.TLV(0x86, []byte(anyURLString(c)))
			}
			var in []byte
			switch c.IntN(5) {
			case 0:
				in = many(uri, 3)
				if c.IntN(3) == 0 { // names of another kind after them
					in = append(in, many(func() []byte {
						return [][]byte{dirName(), otherName(), ref.TLV(0x82, []byte(anyDNS(c)))}[c.IntN(3)]
					}, 2)...)
				}
				in = ref.TLV(0xa0, ref.TLV(0xa0, in))
			case 1:
				in = ref.TLV(0xa0, ref.TLV(0xa0, dirName()))
			case 2:
				in = nil // cRLIssuer only
			default:
				in = ref.TLV(0xa0, ref.TLV(0xa0, uri()))
			}
			if c.IntN(3) == 0 {
				in = append(in, ref.TLV(0x81, []byte{1, 6})...)
			}
			if in == nil || c.IntN(3) == 0 {
				in = append(in, ref.TLV(0xa2, dirName())...)
			}
			return ref.TLV(0x30, in)
		}
		return ref.TLV(0x30, many(dp, 3))
	case "2.5.29.32":
		pi := func() []byte {
			if c.IntN(2) == 0 {
				q := ref.TLV(0x30, ref.TLV(0x30, []byte{6, 8, 0x2b, 6, 1, 5, 5, 7, 2, 1}, ref.TLV(0x16, []byte("http://cps.example/"))))
				return ref.TLV(0x30, oidDER(anyOID(c)), q)
			}
			return ref.TLV(0x30, oidDER(anyOID(c)))
		}
		return ref.TLV(0x30, many(pi, 3))
	case "2.5.29.35":
		in := ref.TLV(0x80, c.Bytes(c.IntN(30)))
		if c.IntN(3) == 0 {
			in = nil
		}
		if c.IntN(2) == 0 {
			in = append(in, ref.TLV(0xa1, dirName())...)
			in = append(in, ref.TLV(0x82, ref.IntBytes(new(big.Int).SetBytes(c.Bytes(c.IntN(21)))))...)
		}
		return ref.TLV(0x30, in)
	case "2.5.29.37":
		eku := func() []byte {
			switch c.IntN(4) {
			case 0:
				return oidDER(anyOID(c))
			case 1:
				return [][]byte{{6, 4, 0x55, 0x1d, 0x25, 0}, oidDER(asn1.ObjectIdentifier{1, 3, 6, 1, 4, 1, 311, 10, 3, 3}), oidDER(asn1.ObjectIdentifier{2, 16, 840, 1, 113730, 4, 1}),
					oidDER(asn1.ObjectIdentifier{1, 3, 6, 1, 4, 1, 311, 2, 1, 22}), oidDER(asn1.ObjectIdentifier{1, 3, 6, 1, 4, 1, 311, 61, 1, 1}), oidDER(asn1.ObjectIdentifier{1, 3, 6, 1, 4, 1, 311, 10, 3, 4})}[c.IntN(6)]
			}
			return []byte{6, 8, 0x2b, 6, 1, 5, 5, 7, 3, byte(1 + c.IntN(20))}
		}
		return ref.TLV(0x30, many(eku, 5))
	case "1.3.6.1.5.5.7.1.1":
		ad := func() []byte {
			m := []byte{6, 8, 0x2b, 6, 1, 5, 5, 7, 48, byte(1 + c.IntN(5))}
			loc := ref.TLV(0x86, []byte(anyURLString(c)))
			if c.IntN(3) == 0 {
				loc = gn()
			}
			return ref.TLV(0x30, m, loc)
		}
		return ref.TLV(0x30, many(ad, 4))
	}
	return c.Bytes(c.IntN(20))
}

func c23Foreign(c *mon.Case) {
	var exts []rawExt
	seen := map[string]bool{}
	for i := 1 + c.IntN(4); i > 0; i-- {
		o := overridable[c.IntN(len(overridable))]
		crit := c.IntN(2) == 0
		v := foreignValue(c, o)
		switch o.String() {
		case "2.5.29.14", "2.5.29.35", "1.3.6.1.5.5.7.1.1":
			crit = false // the standard library refuses these when critical
		}
		if c.IntN(5) == 0 {
			o, v = anyOID(c), c.Bytes(c.IntN(10))
			if c.IntN(2) == 0 {
				o = asn1.ObjectIdentifier{2, 5, 29, []int{9, 16, 18, 20, 27, 28, 46, 99}[c.IntN(8)]}
			}
		}
		if seen[o.String()] {
			continue
		}
		seen[o.String()] = true
		exts = append(exts, rawExt{o, crit, v})
	}
	der := goodSpec(c, exts).der()
	var s string
	for _, e := range exts {
		s += fmt.Sprintf("%s critical=%v %x; ", e.oid, e.critical, e.value)
	}
	c.Note("extensions", s)
	if c23Both(c, der, "foreign") {
		c.Ev("foreign-refused")
		return
	}
	c.Ev("foreign-agree")
	c.Distinct(s)
	c.Sample("%.300s", s)
}

// c23Critical marks extensions critical that the standard library refuses to
// see critical. They are known here, so the flag changes nothing else.
func c23Critical(c *mon.Case) {
	o := []asn1.ObjectIdentifier{{2, 5, 29, 14}, {2, 5, 29, 35}, {1, 3, 6, 1, 5, 5, 7, 1, 1}}[c.Idx%3]
	v := foreignValue(c, o)
	s := goodSpec(c, nil)
	var sem [2]map[string]string
	for i, crit := range []bool{false, true} {
		s.extsRaw = ref.TLV(0xa3, ref.TLV(0x30, extDER(rawExt{o, crit, v})))
		der := s.der()
		c.Note("der", der)
		x, err := cert.ParseCertificate(der)
		if err != nil {
			c.Ev("critical-refused")
			return
		}
		sem[i] = semantics(x)
		c.Check(len(x.Extensions) == 1 && x.Extensions[0].Critical == crit, "critical-flag", "the critical flag of %s is read as %v", o, !crit)
		if len(x.UnhandledCriticalExtensions) != 0 {
			c.Fail("critical-unhandled", "%s, whose content was read, is listed as an unhandled critical extension", o)
		}
	}
	if d := diffMaps(sem[1], sem[0]); d != "" {
		c.Fail("critical-differs", "%s is read differently when critical: %s", o, d)
	}
	c.Ev("critical-agree")
	c.Distinct(o, v)
}

// c23KeyUsage walks all 512 key usages in both directions.
func c23KeyUsage(c *mon.Case) {
	t := &x509.Certificate{SerialNumber: num(1), Subject: pkix.Name{CommonName: "ku"}, NotBefore: time.Unix(1600000000, 0), NotAfter: time.Unix(1700000000, 0), KeyUsage: x509.KeyUsage(c.Idx)}
	tbs, err := cert.CreateCertificateInfo(t, t, &x509.CertificateRequest{RawSubjectPublicKeyInfo: spkiOf(poolPoint(c))})
	if err != nil {
		c.Fail("create", "%v", err)
	}
	der, err := cert.CreateCertificate(tbs, []byte{1})
	if err != nil {
		c.Fail("create", "%v", err)
	}
	if c23Both(c, der, "key-usage") {
		c.Fail("refused", "key usage %b is refused", c.Idx)
	}
	sd, _ := toStd(der, false)
	sx, _ := x509.ParseCertificate(sd)
	c.Check(int(sx.KeyUsage) == c.Idx, "key-usage", "key usage %b is read as %b", c.Idx, sx.KeyUsage)
	stdDER, err := x509.CreateCertificate(&fixedRand{}, t, t, &stdKey().PublicKey, stdKey())
	if err != nil {
		c.Fail("harness", "%v", err)
	}
	sm, _ := toSM2(stdDER, false, spkiOf(poolPoint(c)))
	x, err := cert.ParseCertificate(sm)
	if err != nil || int(x.KeyUsage) != c.Idx {
		c.Fail("key-usage", "the standard library's key usage %b is not read: %v", c.Idx, err)
	}
	c.Ev("key-usages")
	c.Distinct(c.Idx)
}

// c23Requests compares requested extensions in both directions.
func c23Requests(c *mon.Case) {
	t := anyReqTemplate(c)
	c.Note("template", dumpNoCap(*t))
	der, err := x509.CreateCertificateRequest(&fixedRand{}, t, stdKey())
	if err != nil {
		c.Ev("std-refuses-template")
		return
	}
	pt := poolPoint(c)
	sm, err := toSM2(der, true, spkiOf(pt))
	if err != nil {
		c.Fail("harness", "%v", err)
	}
	switch c.IntN(4) {
	case 0, 1:
		sm = reqWithAttrs(anyAttrs(c), pt)
		c.Ev("own-attributes")
	case 2:
		sm = reqWithExts([]rawExt{{oidSANExt, c.IntN(2) == 0, foreignValue(c, oidSANExt)}, {anyOID(c), c.IntN(2) == 0, c.Bytes(c.IntN(9))}}, pt)
	}
	c.Note("der", sm)
	sd, err := toStd(sm, true)
	if err != nil {
		c.Fail("harness", "%v", err)
	}
	sq, e1 := x509.ParseCertificateRequest(sd)
	q, e2 := cert.ParseCertificateRequest(sm)
	if e1 != nil {
		c.Ev("std-refuses-request")
		return
	}
	if e2 != nil {
		c.Fail("refused", "the standard library reads this request, this library says: %v", e2)
	}
	if d := diffMaps(reqSemantics(q), reqSemantics(sq)); d != "" {
		c.Fail("differs", "request read here and by the standard library: %s", d)
	}
	c.Ev("requests-agree")
	c.Distinct(sm)
}

// c23Names compares the verdicts of the two parsers on names and ranges in
// constraints and on hosts of alternative names: the first 256 cases put one
// byte value into every kind of place, the others are random.
func c23Names(c *mon.Case) {
	s := goodSpec(c, nil)
	spec := func(o asn1.ObjectIdentifier, v []byte) []byte {
		s.extsRaw = ref.TLV(0xa3, ref.TLV(0x30, extDER(rawExt{o, false, v})))
		return s.der()
	}
	same := func(what string, o asn1.ObjectIdentifier, v []byte, val string) {
		der := spec(o, v)
		c.Note("der", der)
		c.Note(what, fmt.Sprintf("%q", val))
		sd, err := toStd(der, false)
		if err != nil {
			c.Fail("harness", "%v", err)
		}
		sx, e1 := x509.ParseCertificate(sd)
		x, e2 := cert.ParseCertificate(der)
		c.Distinct(what, val)
		if (e1 == nil) != (e2 == nil) {
			c.Fail("names-verdict", "%s %q: this library says %v, the standard library %v", what, val, e2, e1)
		}
		if e1 != nil {
			c.Ev("names-refused")
			return
		}
		if d := diffMaps(semantics(x), semantics(sx)); d != "" {
			c.Fail("names-differs", "%s %q read here and by the standard library: %s", what, val, d)
		}
		c.Ev("names-accepted")
	}
	constraint := func(tag byte, val string) {
		// an IPv4 range written as IPv6 and the lone period are left to taste
		if val == "." || tag == 0x87 && len(val) == 32 && net.IP(val[:16]).To4() != nil {
			return
		}
		// so are mailboxes with @ in the domain
		if tag == 0x81 && atInDomain(val) {
			return
		}
		side := byte(0xa0 + c.IntN(2))
		what := map[byte]string{0x82: "dns", 0x81: "email", 0x86: "uri", 0x87: "ip"}[tag] + map[byte]string{0xa0: " permitted", 0xa1: " excluded"}[side]
		sub := ref.TLV(0x30, ref.TLV(tag, []byte(val)))
		if c.IntN(4) == 0 {
			sub = append(ref.TLV(0x30, ref.TLV(0x82, []byte("first.cn"))), sub...)
		}
		same(what, asn1.ObjectIdentifier{2, 5, 29, 30}, ref.TLV(0x30, ref.TLV(side, sub)), val)
	}
	sanURI := func(val string) {
		for i := range val {
			if val[i] >= 0x80 {
				return
			}
		}
		same("alternative name", oidSANExt, ref.TLV(0x30, ref.TLV(0x86, []byte(val))), val)
	}
	if c.Idx < 256 {
		b := string([]byte{byte(c.Idx)})
		for _, v := range []string{b, b + "a.cn", "a" + b + "c.cn", "ac" + b + ".cn", "a." + b, "a.cn" + b, "." + b + "a.cn", ".a" + b, "a." + b + ".cn", b + ".cn", b + b} {
			constraint(0x82, v)
			constraint(0x86, v)
			constraint(0x81, v)
			constraint(0x81, "u@"+v)
			constraint(0x81, v+"@x.cn")
			constraint(0x81, "\""+v+"\"@x.cn")
			sanURI("http://" + v)
			sanURI("http://" + v + "/p")
		}
		for _, v := range []string{"a\\" + b + "c@x.cn", "a\\" + b + "@x.cn", "\\" + b + "@x.cn", "\"a\\" + b + "c\"@x.cn", "\"\\" + b + "\"@x.cn", "\"a\\" + b, "\"a" + b, "a\\" + b, "\"a\"" + b + "@x.cn", "\"a\"@" + b + "x.cn", "a." + b + ".c@x.cn", "a@x.cn" + b} {
			constraint(0x81, v)
		}
		for _, n := range []int{4, 16} {
			for at := 0; at < n; at++ {
				m := bytes.Repeat([]byte{0xff}, n)
				for i := at; i < n; i++ {
					m[i] = 0
				}
				m[at] = byte(c.Idx)
				constraint(0x87, string(append(c.Bytes(n), m...)))
			}
		}
		// every length, with a mask that would do
		if c.Idx <= 40 {
			ones := c.IntN(c.Idx/2*8 + 1)
			constraint(0x87, string(append(c.Bytes((c.Idx+1)/2), net.CIDRMask(ones, 8*(c.Idx/2))...)))
			m := make([]byte, c.Idx/2)
			for i := 0; i < ones; i++ {
				m[i/8] |= 0x80 >> (i % 8)
			}
			constraint(0x87, string(append(c.Bytes((c.Idx+1)/2), m...)))
			constraint(0x87, string(append(c.Bytes((c.Idx+1)/2), make([]byte, c.Idx/2)...)))
			constraint(0x87, string(append(c.Bytes((c.Idx+1)/2), bytes.Repeat([]byte{0xff}, c.Idx/2)...)))
		}
		c.Sample("byte %#x in every place of a name", c.Idx)
		return
	}
	alphabet := []string{"\"", "\"", "\\", "@", "@", ".", ".", "a", "Z", "0", "-", "_", "!", "~", "/", ":", "[", "]", "{", "(", ",", " ", "\t", "\r", "\n", "\x00", "\x7f", "\x80", "x.cn", "@x.cn", "1.2.3.4", "::1", "xn--a"}
	for i := 0; i < 20; i++ {
		var v string
		for k := c.IntN(9); k > 0; k-- {
			v += alphabet[c.IntN(len(alphabet))]
		}
		switch c.IntN(5) {
		case 0:
			constraint(0x82, v)
		case 1, 2:
			if c.IntN(2) == 0 {
				v += "@x.cn"
			}
			constraint(0x81, v)
		case 3:
			constraint(0x86, v)
		case 4:
			sanURI("http://" + v)
		}
	}
}

// atInDomain says whether the part of a mailbox after its first separating @
// has another one.
func atInDomain(v string) bool {
	quoted := false
	for i := 0; i < len(v); i++ {
		switch {
		case v[i] == '\\':
			i++
		case v[i] == '"':
			quoted = !quoted
		case v[i] == '@' && !quoted:
			return strings.Contains(v[i+1:], "@")
		}
	}
	return false
}
