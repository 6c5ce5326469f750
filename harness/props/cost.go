package props

import (
	"bytes"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"fmt"
	"math/big"
	"net"
	"net/url"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/ZZMarquis/gm/cryptobyte"
	cbasn1 "github.com/ZZMarquis/gm/cryptobyte/asn1"
	"github.com/ZZMarquis/gm/sm2"
	"github.com/ZZMarquis/gm/sm2/cert"
	"github.com/ZZMarquis/gm/sm3"
	"github.com/ZZMarquis/gm/sm4"
	"github.com/ZZMarquis/gm/util"

	"vharness/mon"
	"vharness/ref"
)

func init() {
	register(&mon.Prop{
		ID:    "C29",
		Alone: true,
		Rule:  "the memory allocated by every operation and the processor time of its thread are measured for inputs of n and 32n bytes or elements in every place where an input can grow, and for hostile inputs whose lengths and counts promise more than they hold; distinct by operation and input",
		Workloads: []mon.Workload{
			{Name: "growth", Quick: len(families), Thorough: 4 * len(families), CPUSeconds: 150, Run: c29Growth},
			{Name: "hostile-certificates", Quick: 1500, Thorough: 30000, Run: c29Certs},
			{Name: "hostile-values", Quick: 500, Thorough: 10000, Run: c29Values},
			{Name: "promises", Quick: 600, Thorough: 10000, Run: c29Promises},
		},
		Need: map[string]int64{"growth": int64(len(families)), "measured-hostile": 20000},
	})
}

// allocated returns the bytes that f allocates.
func allocated(f func()) int64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return int64(b.TotalAlloc - a.TotalAlloc)
}

// threadTime is the processor time this thread has used.
func threadTime() time.Duration {
	var ts syscall.Timespec
	if _, _, e := syscall.Syscall(syscall.SYS_CLOCK_GETTIME, 3, uintptr(unsafe.Pointer(&ts)), 0); e != 0 {
		return 0
	}
	return time.Duration(ts.Nano())
}

// cost measures f on a thread of its own, without the garbage collector.
func cost(f func(), reps int) (mem int64, t time.Duration) {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	runtime.GC()
	old := debug.SetGCPercent(-1)
	defer debug.SetGCPercent(old)
	// but not without bounds
	limit := debug.SetMemoryLimit(3 << 29)
	defer debug.SetMemoryLimit(limit)
	for i := 0; i < reps; i++ {
		var d time.Duration
		m := allocated(func() {
			t0 := threadTime()
			f()
			d = threadTime() - t0
		})
		if i == 0 || m < mem {
			mem = m
		}
		if i == 0 || d < t {
			t = d
		}
		if m > 1<<28 {
			runtime.GC()
		}
	}
	return mem, t
}

// family is one way for an input to grow.
type family struct {
	name string
	n    int // the smaller size; the larger is 32 times that
	make func(c *mon.Case, n int) func()
}

func must(c *mon.Case, err error) {
	if err != nil {
		c.Fail("refused", "the measured operation fails: %v", err)
	}
}

func needTrue(c *mon.Case, ok bool) {
	if !ok {
		c.Fail("refused", "the measured operation fails")
	}
}

// repeat concatenates n encodings.
func repeat(n int, f func(i int) []byte) []byte {
	var b bytes.Buffer
	for i := 0; i < n; i++ {
		b.Write(f(i))
	}
	return b.Bytes()
}

func parsesCert(c *mon.Case, s *certSpec) func() {
	der := s.der()
	return func() { _, err := cert.ParseCertificate(der); must(c, err) }
}

func extFamily(name string, n int, oid asn1.ObjectIdentifier, value func(c *mon.Case, n int) []byte) family {
	return family{name: name, n: n, make: func(c *mon.Case, n int) func() {
		return parsesCert(c, goodSpec(c, []rawExt{{oid, false, value(c, n)}}))
	}}
}

func gnames(tag byte, f func(i int) []byte) func(c *mon.Case, n int) []byte {
	return func(c *mon.Case, n int) []byte {
		return ref.TLV(0x30, repeat(n, func(i int) []byte { return ref.TLV(tag, f(i)) }))
	}
}

func hostName(i int) []byte { return []byte(fmt.Sprintf("host%d.example", i)) }

func constrained(list, tag byte, f func(i int) []byte) func(c *mon.Case, n int) []byte {
	return func(c *mon.Case, n int) []byte {
		return ref.TLV(0x30, ref.TLV(list, repeat(n, func(i int) []byte { return ref.TLV(0x30, ref.TLV(tag, f(i))) })))
	}
}

func ext(i ...int) asn1.ObjectIdentifier { return append(asn1.ObjectIdentifier{2, 5, 29}, i...) }

func manyHosts(n int) (l []string) {
	for i := 0; i < n; i++ {
		l = append(l, string(hostName(i)))
	}
	return l
}

// issues measures making a certificate from a template.
func issues(fill func(n int, t *x509.Certificate)) func(c *mon.Case, n int) func() {
	return func(c *mon.Case, n int) func() {
		t := &x509.Certificate{SerialNumber: num(7), Subject: pkix.Name{CommonName: "s"}, NotBefore: time.Unix(1600000000, 0), NotAfter: time.Unix(1900000000, 0)}
		fill(n, t)
		p := ref.SM2.MulG(num(5))
		q := &x509.CertificateRequest{RawSubjectPublicKeyInfo: spkiOf(p)}
		ca := gmPriv(num(77))
		return func() {
			info, err := cert.CreateCertificateInfo(t, t, q)
			must(c, err)
			_, err = cert.IssueCertificateBySoftCAKey(info, ca, nil)
			must(c, err)
		}
	}
}

func requests(fill func(n int, t *x509.CertificateRequest)) func(c *mon.Case, n int) func() {
	return func(c *mon.Case, n int) func() {
		t := &x509.CertificateRequest{Subject: pkix.Name{CommonName: "s"}}
		fill(n, t)
		priv := gmPriv(num(77))
		pub := sm2.CalculatePubKey(priv)
		return func() {
			der, err := cert.CreateCertificateRequest(t, pub, priv, nil)
			must(c, err)
			_, err = cert.ParseCertificateRequest(der)
			must(c, err)
		}
	}
}

func parsesReq(der func(c *mon.Case, n int) []byte) func(c *mon.Case, n int) func() {
	return func(c *mon.Case, n int) func() {
		d := der(c, n)
		return func() { _, err := cert.ParseCertificateRequest(d); must(c, err) }
	}
}

func builds(f func(b *cryptobyte.Builder, n int)) func(c *mon.Case, n int) func() {
	return func(c *mon.Case, n int) func() {
		return func() {
			b := cryptobyte.NewBuilder(nil)
			f(b, n)
			_, err := b.Bytes()
			must(c, err)
		}
	}
}

func reads(enc func(c *mon.Case, n int) []byte, f func(s *cryptobyte.String) bool) func(c *mon.Case, n int) func() {
	return func(c *mon.Case, n int) func() {
		in := enc(c, n)
		return func() {
			s := cryptobyte.String(in)
			for len(s) > 0 {
				if !f(&s) {
					c.Fail("refused", "the measured operation fails")
				}
			}
		}
	}
}

var families = []family{
	{"sm3 in one write", 1 << 18, func(c *mon.Case, n int) func() {
		m := make([]byte, n)
		return func() { h := sm3.New(); h.Write(m); h.Sum(nil) }
	}},
	{"sm3 in single bytes", 1 << 16, func(c *mon.Case, n int) func() {
		m := []byte{7}
		return func() {
			h := sm3.New()
			for i := 0; i < n; i++ {
				h.Write(m)
			}
			h.Sum(nil)
		}
	}},
	{"sm3 one-shot", 1 << 18, func(c *mon.Case, n int) func() {
		m := make([]byte, n)
		return func() { sm3.Sum(m) }
	}},
	{"sm3 sums of one object", 1 << 12, func(c *mon.Case, n int) func() {
		return func() {
			h := sm3.New()
			for i := 0; i < n; i++ {
				h.Write([]byte{7})
				h.Sum(nil)
			}
		}
	}},
	{"sm4 blocks", 1 << 12, func(c *mon.Case, n int) func() {
		b, err := sm4.NewCipher(make([]byte, 16))
		must(c, err)
		x := make([]byte, 16)
		return func() {
			for i := 0; i < n; i++ {
				b.Encrypt(x, x)
				b.Decrypt(x, x)
				b.Encrypt(x, x)
			}
		}
	}},
	{"sm4 keys", 1 << 10, func(c *mon.Case, n int) func() {
		return func() {
			k := make([]byte, 16)
			for i := 0; i < n; i++ {
				k[i%16]++
				_, err := sm4.NewCipher(k)
				must(c, err)
			}
		}
	}},
	{"ecb", 1 << 16, func(c *mon.Case, n int) func() {
		k, m := make([]byte, 16), make([]byte, n)
		return func() {
			x, err := sm4.ECBEncrypt(k, m)
			must(c, err)
			_, err = sm4.ECBDecrypt(k, x)
			must(c, err)
		}
	}},
	{"cbc", 1 << 16, func(c *mon.Case, n int) func() {
		k, m := make([]byte, 16), make([]byte, n)
		return func() {
			x, err := sm4.CBCEncrypt(k, k, m)
			must(c, err)
			_, err = sm4.CBCDecrypt(k, k, x)
			must(c, err)
		}
	}},
	{"padding", 1 << 18, func(c *mon.Case, n int) func() {
		m := make([]byte, n)
		return func() {
			util.PKCS5UnPadding(util.PKCS5Padding(m, 16))
			x := util.ZeroPadding(m, 16)
			util.UnZeroPadding(x, len(x)-len(m))
		}
	}},
	{"sign", 1 << 18, func(c *mon.Case, n int) func() {
		p, m := gmPriv(num(77)), make([]byte, n)
		return func() { _, err := sm2.Sign(p, nil, m); must(c, err) }
	}},
	{"verify", 1 << 18, func(c *mon.Case, n int) func() {
		d, m := num(77), make([]byte, n)
		r, s, _ := ref.SM2.SignK(d, ref.SM2.E(ref.SM2.MulG(d), nil, m), num(99))
		pub, sig := gmPub(ref.SM2.MulG(d)), ref.SigDER(r, s)
		return func() { needTrue(c, sm2.Verify(pub, nil, m, sig)) }
	}},
	{"encrypt", 1 << 18, func(c *mon.Case, n int) func() {
		p, m := gmPub(ref.SM2.MulG(num(77))), make([]byte, n)
		return func() { _, err := sm2.Encrypt(p, m, sm2.C1C3C2); must(c, err) }
	}},
	{"decrypt", 1 << 18, func(c *mon.Case, n int) func() {
		p := gmPriv(num(77))
		x := refEncrypt(c, ref.SM2.MulG(num(77)), make([]byte, n), num(5), true)
		return func() { _, err := sm2.Decrypt(p, x, sm2.C1C3C2); must(c, err) }
	}},
	{"ciphertext in DER", 1 << 18, func(c *mon.Case, n int) func() {
		x := refEncrypt(c, ref.SM2.MulG(num(77)), make([]byte, n), num(5), true)
		return func() {
			d, err := sm2.MarshalCipher(x, sm2.C1C3C2)
			must(c, err)
			_, err = sm2.UnmarshalCipher(d, sm2.C1C3C2)
			must(c, err)
		}
	}},
	{"agreed key", 1 << 20, func(c *mon.Case, n int) func() {
		a, b, x, y := gmPriv(num(5)), gmPriv(num(6)), gmPub(ref.SM2.MulG(num(7))), gmPub(ref.SM2.MulG(num(8)))
		return func() {
			_, err := sm2.CalculateKeyWithConfirmation(false, n, nil, a, b, nil, x, y, nil)
			must(c, err)
		}
	}},
	{"keys", 8, func(c *mon.Case, n int) func() {
		return func() {
			for i := 0; i < n; i++ {
				p, q, err := sm2.GenerateKey(c.RNG())
				must(c, err)
				_, err = sm2.RawBytesToPrivateKey(p.GetRawBytes())
				must(c, err)
				_, err = sm2.RawBytesToPublicKey(q.GetRawBytes())
				must(c, err)
			}
		}
	}},
	{"scalars", 16, func(c *mon.Case, n int) func() {
		k := c.Bytes(n)
		return func() {
			p := sm2.GetSm2P256V1()
			p.ScalarBaseMult(k)
			p.ScalarMult(p.Gx, p.Gy, k)
		}
	}},
	{"signatures", 2, func(c *mon.Case, n int) func() {
		p := gmPriv(num(77))
		pub := sm2.CalculatePubKey(p)
		return func() {
			for i := 0; i < n; i++ {
				sig, err := sm2.Sign(p, []byte{byte(i)}, []byte{byte(i)})
				must(c, err)
				needTrue(c, sm2.Verify(pub, []byte{byte(i)}, []byte{byte(i)}, sig))
			}
		}
	}},

	// certificates that grow in one place
	extFamily("certificate: opaque extension", 1<<18, asn1.ObjectIdentifier{1, 2, 3}, func(c *mon.Case, n int) []byte { return make([]byte, n) }),
	extFamily("certificate: dns names", 512, ext(17), gnames(0x82, hostName)),
	extFamily("certificate: one dns name", 1<<16, ext(17), func(c *mon.Case, n int) []byte {
		return ref.TLV(0x30, ref.TLV(0x82, []byte(strings.Repeat("a.", n)+"b")))
	}),
	extFamily("certificate: mailboxes", 512, ext(17), gnames(0x81, func(i int) []byte { return append([]byte("u@"), hostName(i)...) })),
	extFamily("certificate: addresses", 512, ext(17), gnames(0x87, func(i int) []byte { return []byte{10, 0, byte(i >> 8), byte(i)} })),
	extFamily("certificate: uris", 512, ext(17), gnames(0x86, func(i int) []byte { return append([]byte("http://"), hostName(i)...) })),
	extFamily("certificate: one uri", 1<<14, ext(17), func(c *mon.Case, n int) []byte {
		return ref.TLV(0x30, ref.TLV(0x86, []byte("http://a.cn/"+strings.Repeat("a%20/", n))))
	}),
	extFamily("certificate: other names", 512, ext(17), func(c *mon.Case, n int) []byte {
		return ref.TLV(0x30, ref.TLV(0x82, []byte("a.cn")), repeat(n, func(i int) []byte { return ref.TLV(0x88, []byte{42, 3}) }))
	}),
	extFamily("certificate: permitted names", 512, ext(30), constrained(0xa0, 0x82, hostName)),
	extFamily("certificate: excluded names", 512, ext(30), constrained(0xa1, 0x82, hostName)),
	extFamily("certificate: permitted mailboxes", 512, ext(30), constrained(0xa0, 0x81, func(i int) []byte { return append([]byte("u@"), hostName(i)...) })),
	extFamily("certificate: permitted ranges", 512, ext(30), constrained(0xa0, 0x87, func(i int) []byte { return []byte{10, 0, byte(i >> 8), byte(i), 255, 255, 255, 255} })),
	extFamily("certificate: excluded uris", 512, ext(30), constrained(0xa1, 0x86, hostName)),
	extFamily("certificate: one permitted name", 1<<15, ext(30), func(c *mon.Case, n int) []byte {
		return ref.TLV(0x30, ref.TLV(0xa0, ref.TLV(0x30, ref.TLV(0x82, []byte(strings.Repeat("a.", n)+"b")))))
	}),
	extFamily("certificate: one permitted mailbox", 1<<15, ext(30), func(c *mon.Case, n int) []byte {
		return ref.TLV(0x30, ref.TLV(0xa0, ref.TLV(0x30, ref.TLV(0x81, []byte("\""+strings.Repeat("\\\"", n)+"\"@b.cn")))))
	}),
	extFamily("certificate: usages", 512, ext(37), func(c *mon.Case, n int) []byte {
		return ref.TLV(0x30, repeat(n, func(i int) []byte { return []byte{6, 8, 0x2b, 6, 1, 5, 5, 7, 3, byte(i & 15)} }))
	}),
	extFamily("certificate: unknown usages", 512, ext(37), func(c *mon.Case, n int) []byte {
		return ref.TLV(0x30, repeat(n, func(i int) []byte { return []byte{6, 5, 0x2b, 0x81, byte(i>>7&0x7f | 0x80), byte(i & 0x7f), 9} }))
	}),
	extFamily("certificate: policies", 512, ext(32), func(c *mon.Case, n int) []byte {
		return ref.TLV(0x30, repeat(n, func(i int) []byte {
			return ref.TLV(0x30, []byte{6, 4, 0x2b, 0x81, byte(i>>7&0x7f | 0x80), byte(i & 0x7f)})
		}))
	}),
	extFamily("certificate: revocation lists", 512, ext(31), func(c *mon.Case, n int) []byte {
		return ref.TLV(0x30, repeat(n, func(i int) []byte {
			return ref.TLV(0x30, ref.TLV(0xa0, ref.TLV(0xa0, ref.TLV(0x86, append([]byte("http://"), hostName(i)...)))))
		}))
	}),
	extFamily("certificate: locations", 512, asn1.ObjectIdentifier{1, 3, 6, 1, 5, 5, 7, 1, 1}, func(c *mon.Case, n int) []byte {
		return ref.TLV(0x30, repeat(n, func(i int) []byte {
			return ref.TLV(0x30, []byte{6, 8, 0x2b, 6, 1, 5, 5, 7, 0x30, byte(1 + i&1)}, ref.TLV(0x86, append([]byte("http://"), hostName(i)...)))
		}))
	}),
	extFamily("certificate: key id", 1<<18, ext(14), func(c *mon.Case, n int) []byte { return ref.TLV(4, make([]byte, n)) }),
	extFamily("certificate: key usage bits", 1<<18, ext(15), func(c *mon.Case, n int) []byte { return ref.TLV(3, []byte{0}, bytes.Repeat([]byte{255}, n)) }),
	{"certificate: extensions", 512, func(c *mon.Case, n int) func() {
		var l []rawExt
		for i := 0; i < n; i++ {
			l = append(l, rawExt{asn1.ObjectIdentifier{1, 2, 3, i}, i&1 == 0, []byte{5, 0}})
		}
		return parsesCert(c, goodSpec(c, l))
	}},
	{"certificate: extension of many components", 1 << 14, func(c *mon.Case, n int) func() {
		o := asn1.ObjectIdentifier{1, 2}
		for i := 0; i < n; i++ {
			o = append(o, i&127)
		}
		return parsesCert(c, goodSpec(c, []rawExt{{o, false, []byte{5, 0}}}))
	}},
	{"certificate: names in the subject", 512, func(c *mon.Case, n int) func() {
		s := goodSpec(c, nil)
		s.subject = ref.TLV(0x30, repeat(n, func(i int) []byte {
			return ref.TLV(0x31, ref.TLV(0x30, []byte{6, 3, 0x55, 4, 11}, ref.TLV(0x0c, hostName(i))))
		}))
		s.issuer = s.subject
		return parsesCert(c, s)
	}},
	{"certificate: attributes of one name", 512, func(c *mon.Case, n int) func() {
		s := goodSpec(c, nil)
		s.subject = ref.TLV(0x30, ref.TLV(0x31, repeat(n, func(i int) []byte {
			return ref.TLV(0x30, []byte{6, 3, 0x55, 4, 10}, ref.TLV(0x13, []byte("org")))
		})))
		return parsesCert(c, s)
	}},
	{"certificate: long name", 1 << 17, func(c *mon.Case, n int) func() {
		s := goodSpec(c, nil)
		s.subject = ref.TLV(0x30, ref.TLV(0x31, ref.TLV(0x30, []byte{6, 3, 0x55, 4, 3}, ref.TLV(0x0c, bytes.Repeat([]byte("a"), n)))))
		return parsesCert(c, s)
	}},
	{"certificate: serial number", 1 << 16, func(c *mon.Case, n int) func() {
		s := goodSpec(c, nil)
		s.serial = new(big.Int).Lsh(num(1), uint(8*n))
		return parsesCert(c, s)
	}},
	{"certificate: signature", 1 << 18, func(c *mon.Case, n int) func() {
		s := goodSpec(c, nil)
		s.sig = make([]byte, n)
		return parsesCert(c, s)
	}},
	{"request: attributes", 256, parsesReq(func(c *mon.Case, n int) []byte {
		return reqWithAttrs(repeat(n, func(i int) []byte {
			return ref.TLV(0x30, []byte{6, 9, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 9, 7}, ref.TLV(0x31, ref.TLV(0x13, []byte("secret"))))
		}), ref.SM2.MulG(num(3)))
	})},
	{"request: extension requests", 256, parsesReq(func(c *mon.Case, n int) []byte {
		return reqWithAttrs(repeat(n, func(i int) []byte {
			return extReqAttr(extSeq([]rawExt{{asn1.ObjectIdentifier{1, 2, 3, i}, false, []byte{5, 0}}}))
		}), ref.SM2.MulG(num(3)))
	})},
	{"request: extensions", 256, parsesReq(func(c *mon.Case, n int) []byte {
		var l []rawExt
		for i := 0; i < n; i++ {
			l = append(l, rawExt{asn1.ObjectIdentifier{1, 2, 3, i}, false, []byte{5, 0}})
		}
		return reqWithExts(l, ref.SM2.MulG(num(3)))
	})},
	{"request: dns names", 512, parsesReq(func(c *mon.Case, n int) []byte {
		return reqWithExts([]rawExt{{oidSANExt, false, gnames(0x82, hostName)(c, n)}}, ref.SM2.MulG(num(3)))
	})},
	{"request: names in the subject", 512, parsesReq(func(c *mon.Case, n int) []byte {
		subj := ref.TLV(0x30, repeat(n, func(i int) []byte {
			return ref.TLV(0x31, ref.TLV(0x30, []byte{6, 3, 0x55, 4, 11}, ref.TLV(0x0c, hostName(i))))
		}))
		return assemble(ref.TLV(0x30, []byte{2, 1, 0}, subj, spkiOf(ref.SM2.MulG(num(3))), ref.TLV(0xa0)), sm2SigAlg, ref.SigDER(num(1), num(2)))
	})},
	{"request: verification", 1 << 17, func(c *mon.Case, n int) func() {
		tbs := ref.TLV(0x30, []byte{2, 1, 0}, rawName(pkix.Name{CommonName: strings.Repeat("r", n)}), spkiOf(ref.SM2.MulG(num(3))), ref.TLV(0xa0))
		der := signedBy(c, tbs, num(3), nil)
		return func() { ok, err := cert.VerifyDERCSRSign(der, nil); must(c, err); needTrue(c, ok) }
	}},
	{"filled template", 512, func(c *mon.Case, n int) func() {
		der := reqWithExts([]rawExt{{oidSANExt, false, gnames(0x82, hostName)(c, n)}}, ref.SM2.MulG(num(3)))
		q, err := cert.ParseCertificateRequest(der)
		must(c, err)
		for i := 0; i < n; i++ {
			q.Subject.Names = append(q.Subject.Names, pkix.AttributeTypeAndValue{Type: asn1.ObjectIdentifier{2, 5, 4, 11}, Value: "unit"})
		}
		return func() { cert.FillCertificateTemplateByCSR(&x509.Certificate{}, q) }
	}},

	// templates that grow in one place
	{"issuing: dns names", 512, issues(func(n int, t *x509.Certificate) { t.DNSNames = manyHosts(n) })},
	{"issuing: mailboxes", 512, issues(func(n int, t *x509.Certificate) {
		for i := 0; i < n; i++ {
			t.EmailAddresses = append(t.EmailAddresses, fmt.Sprintf("u%d@a.cn", i))
		}
	})},
	{"issuing: addresses", 512, issues(func(n int, t *x509.Certificate) {
		for i := 0; i < n; i++ {
			t.IPAddresses = append(t.IPAddresses, net.IP{10, 0, byte(i >> 8), byte(i)})
		}
	})},
	{"issuing: uris", 512, issues(func(n int, t *x509.Certificate) {
		for i := 0; i < n; i++ {
			t.URIs = append(t.URIs, &url.URL{Scheme: "http", Host: string(hostName(i))})
		}
	})},
	{"issuing: constraints", 256, issues(func(n int, t *x509.Certificate) {
		t.PermittedDNSDomains, t.ExcludedDNSDomains = manyHosts(n), manyHosts(n)
		t.PermittedEmailAddresses, t.ExcludedURIDomains = manyHosts(n), manyHosts(n)
		for i := 0; i < n; i++ {
			t.PermittedIPRanges = append(t.PermittedIPRanges, &net.IPNet{IP: net.IP{10, 0, byte(i >> 8), byte(i)}, Mask: net.CIDRMask(32, 32)})
		}
	})},
	{"issuing: usages", 512, issues(func(n int, t *x509.Certificate) {
		for i := 0; i < n; i++ {
			t.ExtKeyUsage = append(t.ExtKeyUsage, x509.ExtKeyUsage(i%10))
			t.UnknownExtKeyUsage = append(t.UnknownExtKeyUsage, asn1.ObjectIdentifier{1, 2, i})
		}
	})},
	{"issuing: policies", 512, issues(func(n int, t *x509.Certificate) {
		for i := 0; i < n; i++ {
			t.PolicyIdentifiers = append(t.PolicyIdentifiers, asn1.ObjectIdentifier{1, 2, i})
		}
	})},
	{"issuing: locations", 512, issues(func(n int, t *x509.Certificate) {
		t.OCSPServer, t.IssuingCertificateURL, t.CRLDistributionPoints = manyHosts(n), manyHosts(n), manyHosts(n)
	})},
	{"issuing: extra extensions", 256, issues(func(n int, t *x509.Certificate) {
		for i := 0; i < n; i++ {
			t.ExtraExtensions = append(t.ExtraExtensions, pkix.Extension{Id: asn1.ObjectIdentifier{1, 2, i}, Value: []byte{5, 0}})
		}
	})},
	{"issuing: one extension", 1 << 18, issues(func(n int, t *x509.Certificate) {
		t.ExtraExtensions = []pkix.Extension{{Id: asn1.ObjectIdentifier{1, 2, 3}, Value: make([]byte, n)}}
	})},
	{"issuing: subject", 512, issues(func(n int, t *x509.Certificate) {
		t.Subject.OrganizationalUnit = manyHosts(n)
		for i := 0; i < n; i++ {
			t.Subject.ExtraNames = append(t.Subject.ExtraNames, pkix.AttributeTypeAndValue{Type: asn1.ObjectIdentifier{1, 2, i}, Value: "v"})
		}
	})},
	{"requesting: dns names", 512, requests(func(n int, t *x509.CertificateRequest) { t.DNSNames = manyHosts(n) })},
	{"requesting: extensions", 256, requests(func(n int, t *x509.CertificateRequest) {
		for i := 0; i < n; i++ {
			t.ExtraExtensions = append(t.ExtraExtensions, pkix.Extension{Id: asn1.ObjectIdentifier{1, 2, i}, Value: []byte{5, 0}})
		}
	})},
	{"requesting: attributes", 256, requests(func(n int, t *x509.CertificateRequest) {
		for i := 0; i < n; i++ {
			t.Attributes = append(t.Attributes, pkix.AttributeTypeAndValueSET{Type: asn1.ObjectIdentifier{1, 2, i},
				Value: [][]pkix.AttributeTypeAndValue{{{Type: asn1.ObjectIdentifier{1, 2, i}, Value: "v"}}}})
		}
	})},
	{"requesting: extension attributes", 256, requests(func(n int, t *x509.CertificateRequest) {
		a := pkix.AttributeTypeAndValueSET{Type: asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 14}, Value: [][]pkix.AttributeTypeAndValue{nil}}
		for i := 0; i < n; i++ {
			a.Value[0] = append(a.Value[0], pkix.AttributeTypeAndValue{Type: asn1.ObjectIdentifier{1, 2, 3, i}, Value: []byte{5, 0}})
		}
		t.Attributes = []pkix.AttributeTypeAndValueSET{a}
		for i := 0; i < n; i++ {
			t.ExtraExtensions = append(t.ExtraExtensions, pkix.Extension{Id: asn1.ObjectIdentifier{1, 2, 4, i}, Value: []byte{5, 0}})
		}
	})},

	// builders and readers
	{"building: bytes", 1 << 12, builds(func(b *cryptobyte.Builder, n int) {
		for i := 0; i < n; i++ {
			b.AddUint8(byte(i))
		}
	})},
	{"building: elements", 1 << 12, builds(func(b *cryptobyte.Builder, n int) {
		for i := 0; i < n; i++ {
			b.AddASN1Int64(int64(i) << 20)
		}
	})},
	{"building: elements of a sequence", 1 << 12, builds(func(b *cryptobyte.Builder, n int) {
		b.AddASN1(cbasn1.SEQUENCE, func(b *cryptobyte.Builder) {
			for i := 0; i < n; i++ {
				b.AddASN1OctetString([]byte{1, 2, 3})
				b.AddUint24LengthPrefixed(func(b *cryptobyte.Builder) { b.AddUint8(1) })
			}
		})
	})},
	{"building: long content", 1 << 18, builds(func(b *cryptobyte.Builder, n int) {
		b.AddASN1(cbasn1.SEQUENCE, func(b *cryptobyte.Builder) { b.AddASN1OctetString(make([]byte, n)) })
	})},
	{"building: big integer", 1 << 13, builds(func(b *cryptobyte.Builder, n int) {
		b.AddASN1BigInt(new(big.Int).Lsh(num(1), uint(8*n)))
		b.AddASN1BigInt(new(big.Int).Neg(new(big.Int).Lsh(num(1), uint(8*n))))
	})},
	{"building: object identifier", 1 << 14, builds(func(b *cryptobyte.Builder, n int) {
		b.AddASN1ObjectIdentifier(append(asn1.ObjectIdentifier{1, 2}, make([]int, n)...))
	})},
	{"building: values", 1 << 11, builds(func(b *cryptobyte.Builder, n int) {
		for i := 0; i < n; i++ {
			b.MarshalASN1(struct{ A, B int }{i, i})
			b.AddASN1GeneralizedTime(time.Unix(int64(i), 0))
			b.AddASN1Boolean(true)
			b.AddASN1Enum(int64(i))
			b.AddASN1BitString([]byte{1})
		}
	})},
	{"reading: integers", 1 << 13, reads(func(c *mon.Case, n int) []byte { return bytes.Repeat([]byte{2, 2, 1, 1}, n) },
		func(s *cryptobyte.String) bool { var v int; return s.ReadASN1Integer(&v) })},
	{"reading: elements", 1 << 14, reads(func(c *mon.Case, n int) []byte { return bytes.Repeat([]byte{4, 2, 1, 1, 5, 0}, n) },
		func(s *cryptobyte.String) bool {
			var v cryptobyte.String
			return s.ReadASN1(&v, cbasn1.OCTET_STRING) && s.SkipOptionalASN1(cbasn1.BOOLEAN) && s.SkipASN1(cbasn1.NULL)
		})},
	{"reading: bytes", 1 << 16, reads(func(c *mon.Case, n int) []byte { return make([]byte, n) },
		func(s *cryptobyte.String) bool { var v byte; return s.ReadUint8(&v) })},
	{"reading: big integer", 1 << 13, reads(func(c *mon.Case, n int) []byte { return ref.TLV(2, []byte{0x80}, make([]byte, n)) },
		func(s *cryptobyte.String) bool { return s.ReadASN1Integer(new(big.Int)) })},
	{"reading: object identifier", 1 << 14, reads(func(c *mon.Case, n int) []byte { return ref.TLV(6, bytes.Repeat([]byte{0x81, 1}, n)) },
		func(s *cryptobyte.String) bool { var o asn1.ObjectIdentifier; return s.ReadASN1ObjectIdentifier(&o) })},
	{"reading: bit string", 1 << 18, reads(func(c *mon.Case, n int) []byte { return ref.TLV(3, make([]byte, n)) },
		func(s *cryptobyte.String) bool { var o asn1.BitString; return s.ReadASN1BitString(&o) })},
	{"reading: octet string", 1 << 18, reads(func(c *mon.Case, n int) []byte { return ref.TLV(4, make([]byte, n)) },
		func(s *cryptobyte.String) bool { var o []byte; return s.ReadASN1Bytes(&o, cbasn1.OCTET_STRING) })},
	{"reading: nested", 1 << 12, func(c *mon.Case, n int) func() {
		in := []byte{}
		size := 0
		var heads [][]byte
		for i := 0; i < n; i++ {
			h := ref.TLV(0x30, make([]byte, 0))
			switch {
			case size < 128:
				h = []byte{0x30, byte(size)}
			case size < 1<<8:
				h = []byte{0x30, 0x81, byte(size)}
			case size < 1<<16:
				h = []byte{0x30, 0x82, byte(size >> 8), byte(size)}
			default:
				h = []byte{0x30, 0x83, byte(size >> 16), byte(size >> 8), byte(size)}
			}
			heads = append(heads, h)
			size += len(h)
		}
		for i := n - 1; i >= 0; i-- {
			in = append(in, heads[i]...)
		}
		return func() {
			s := cryptobyte.String(in)
			for i := 0; i < n; i++ {
				needTrue(c, s.ReadASN1(&s, cbasn1.SEQUENCE))
			}
		}
	}},
	{"reading: times", 1 << 11, reads(func(c *mon.Case, n int) []byte {
		return bytes.Repeat(append([]byte{24, 15}, "20240102030405Z"...), n)
	}, func(s *cryptobyte.String) bool { var t time.Time; return s.ReadASN1GeneralizedTime(&t) })},
	{"signature in DER", 1 << 16, func(c *mon.Case, n int) func() {
		x := new(big.Int).Lsh(num(1), uint(8*n))
		return func() {
			d, err := sm2.MarshalSign(x, x)
			must(c, err)
			_, _, err = sm2.UnmarshalSign(d)
			must(c, err)
		}
	}},
	{"verifying long numbers", 1 << 16, func(c *mon.Case, n int) func() {
		x := new(big.Int).Lsh(num(1), uint(8*n))
		p, sig := gmPub(ref.SM2.MulG(num(7))), ref.SigDER(x, x)
		return func() { sm2.Verify(p, nil, nil, sig); sm2.VerifyByRS(p, nil, nil, x, x) }
	}},
}

const growth = 32

func c29Growth(c *mon.Case) {
	f := families[c.Idx%len(families)]
	c.Note("growing", f.name)
	type point struct {
		mem int64
		t   time.Duration
	}
	var small, large point
	var op1, opm, op2 func()
	c.NoPanic("growth", func() {
		n := f.n
		if n > 200 && n <= 4096 {
			n *= 4
		}
		if strings.HasPrefix(f.name, "issuing") || strings.HasPrefix(f.name, "requesting") {
			n *= 2 // against the cost of the signature
		}
		f.n = n
		op1, opm, op2 = f.make(c, n), f.make(c, growth/4*n), f.make(c, growth*n)
		op1()
	})
	var why string
	measure := func(op func(), times int) {
		c.NoPanic("growth", func() {
			small.mem, small.t = cost(op1, 4)
			large.mem, large.t = cost(op, 2)
		})
		memLim := int64(2.5*float64(times)*float64(small.mem)) + 1<<18
		if l := int64(64*times*f.n) + 1<<18; memLim < l {
			memLim = l
		}
		timeLim := 10*time.Duration(times)*small.t + 60*time.Millisecond
		switch {
		case large.mem > memLim:
			why = fmt.Sprintf("allocates %d bytes for size %d and %d for %d", small.mem, f.n, large.mem, times*f.n)
		case large.t > timeLim:
			why = fmt.Sprintf("takes %v for size %d and %v for %d", small.t, f.n, large.t, times*f.n)
		default:
			why = ""
		}
	}
	// the middle size is there to end it sooner when it is bad
	for try := 0; try < 4; try++ {
		if measure(opm, growth/4); why == "" {
			break
		}
	}
	for try := 0; try < 4 && (why == "" || try > 0); try++ {
		if measure(op2, growth); why == "" {
			break
		}
	}
	if why != "" {
		c.Fail("growth", "%s: %s", f.name, why)
	}
	c.Ev("growth")
	c.Distinct(f.name)
	c.Sample("%s: %d bytes and %v for %d, %d bytes and %v for %d", f.name, small.mem, small.t, f.n, large.mem, large.t, growth*f.n)
}

// within checks what one call on n bytes of input may cost.
func within(c *mon.Case, what string, n int, f func()) {
	lim := int64(1<<18 + 512*n)
	switch what {
	case "Verify", "VerifyDERCSRSign", "Decrypt": // which compute with points
		lim += 8 << 20
	}
	limT := 60*time.Millisecond + time.Duration(n)*50*time.Microsecond
	var m int64
	var t time.Duration
	for try := 0; try < 4; try++ {
		c.NoPanic(what, func() {
			m = allocated(func() {
				runtime.LockOSThread()
				t0 := threadTime()
				f()
				t = threadTime() - t0
				runtime.UnlockOSThread()
			})
		})
		if m <= lim && t <= limT {
			c.Ev("measured-hostile")
			return
		}
	}
	if m > lim {
		c.Fail("memory", "%s allocates %d bytes for an input of %d", what, m, n)
	}
	c.Fail("time", "%s takes %v for an input of %d bytes", what, t, n)
}

// hostileOps hands b to everything that reads bytes from elsewhere.
func hostileOps(c *mon.Case, b []byte) {
	priv, pub := gmPriv(num(77)), gmPub(ref.SM2.MulG(num(77)))
	for _, o := range []struct {
		name string
		f    func()
	}{
		{"ParseCertificate", func() { cert.ParseCertificate(b) }},
		{"ParseCertificateRequest", func() { cert.ParseCertificateRequest(b) }},
		{"VerifyDERCSRSign", func() { cert.VerifyDERCSRSign(b, nil) }},
		{"UnmarshalSign", func() { sm2.UnmarshalSign(b) }},
		{"UnmarshalCipher", func() { sm2.UnmarshalCipher(b, sm2.C1C3C2); sm2.UnmarshalCipher(b, sm2.C1C2C3) }},
		{"MarshalCipher", func() { sm2.MarshalCipher(b, sm2.C1C3C2) }},
		{"Verify", func() { sm2.Verify(pub, nil, nil, b) }},
		{"Decrypt", func() { sm2.Decrypt(priv, b, sm2.C1C3C2) }},
		{"RawBytesToPublicKey", func() { sm2.RawBytesToPublicKey(b) }},
		{"RawBytesToPrivateKey", func() { sm2.RawBytesToPrivateKey(b) }},
		{"ECBDecrypt", func() { sm4.ECBDecrypt(b, b) }},
		{"PKCS5UnPadding", func() { util.PKCS5UnPadding(b) }},
	} {
		within(c, o.name, len(b), o.f)
	}
}

func c29Certs(c *mon.Case) {
	der, req := c22Seed(c)
	for i := 0; i < 8; i++ {
		roots, ok := parseTree(der, 0)
		if !ok {
			c.Fail("harness", "the seed is not DER")
		}
		mutateTree(c, roots)
		m := roots[0].enc()
		if len(m) > 1<<16 {
			continue
		}
		if c.IntN(2) == 0 {
			m = promise(c, m)
		}
		c.Note("der", m)
		if req {
			within(c, "ParseCertificateRequest", len(m), func() { cert.ParseCertificateRequest(m) })
			within(c, "VerifyDERCSRSign", len(m), func() { cert.VerifyDERCSRSign(m, nil) })
		} else {
			within(c, "ParseCertificate", len(m), func() { cert.ParseCertificate(m) })
		}
		c.Distinct(m)
	}
}

// promise rewrites some bytes so that a length says more than there is.
func promise(c *mon.Case, b []byte) []byte {
	b = clone(b)
	heads := [][]byte{{0x83, 0x7f, 0xff, 0xff}, {0x84, 0x7f, 0xff, 0xff, 0xff}, {0x84, 0x0f, 0xff, 0xff, 0xf0}, {0x84, 0x80, 0, 0, 0}, {0x84, 0xff, 0xff, 0xff, 0xff}, {0x80}, {0x85, 1, 0, 0, 0, 0}, {0x88, 0x7f, 255, 255, 255, 255, 255, 255, 255}, {0xff}, {0x82, 0xff, 0xff}}
	for k := 1 + c.IntN(2); k > 0 && len(b) > 1; k-- {
		h := heads[c.IntN(len(heads))]
		at := 1 + c.IntN(len(b)-1)
		if c.IntN(3) == 0 {
			at = 1 + c.IntN(min(len(b)-1, 12))
		}
		if c.IntN(2) == 0 {
			b = append(clone(b[:at]), append(clone(h), b[at+1:]...)...)
		} else {
			b = append(b[:at:at], append(clone(h), b[min(at+len(h), len(b)):]...)...)
		}
	}
	return b
}

func c29Values(c *mon.Case) {
	var b []byte
	switch c.IntN(5) {
	case 0:
		b = ref.SigDER(int256(c), int256(c))
	case 1, 2:
		first, _ := anyOrder(c)
		b = refEncrypt(c, poolPoint(c), c.Bytes(1+c.IntN(300)), nil, first)
		if d, err := ref.CipherDER(b, first); err == nil && c.IntN(2) == 0 {
			b = d
		}
	case 3:
		o := anyOp(c, 1, false)
		b = clone(o.want)
	case 4:
		b = c.Bytes(c.IntN(400))
	}
	if len(b) > 4096 {
		b = b[:4096]
	}
	for i := 0; i < 6; i++ {
		m := clone(b)
		if len(m) > 0 && c.IntN(3) > 0 {
			m[c.IntN(len(m))] = alphabet3[c.IntN(len(alphabet3))]
		}
		if c.IntN(2) == 0 {
			m = promise(c, m)
		}
		c.Note("input", m)
		hostileOps(c, m)
		readersWithin(c, m)
		c.Distinct(m)
	}
}

// readersWithin hands b to every reading operation.
func readersWithin(c *mon.Case, b []byte) {
	ops := readOpsOf
	if len(b) > 0 {
		ops = append(ops[:len(ops):len(ops)], tagOps(b[0])...)
	}
	for _, o := range ops {
		s := cryptobyte.String(b)
		within(c, "read "+o.desc, len(b), func() { o.run(&s) })
	}
}

// c29Promises makes short inputs that announce long contents, many elements or
// deep nesting.
func c29Promises(c *mon.Case) {
	var b []byte
	tag := []byte{0x30, 0x31, 4, 3, 2, 6, 0xa0, 0xa3, 24, 12}[c.IntN(10)]
	switch c.IntN(4) {
	case 0: // one element
		b = promise(c, append([]byte{tag, 0}, c.Bytes(1+c.IntN(30))...))
	case 1: // nested, each promising the most
		for i := 1 + c.IntN(400); i > 0; i-- {
			b = append(b, tag, 0x84, 0x7f, 0xff, 0xff, 0xff)
		}
	case 2: // nested and honest
		n := 1 + c.IntN(3000)
		var in []byte
		for i := 0; i < n && len(in) < 20000; i++ {
			in = ref.TLV(tag, in)
		}
		b = in
	case 3: // many empty elements
		b = ref.TLV(0x30, bytes.Repeat([]byte{tag, 0}, c.IntN(3000)))
	}
	c.Note("input", b)
	hostileOps(c, b)
	readersWithin(c, b)
	// the same as the value of an extension and as the whole body of a certificate
	for _, o := range overridable {
		der := goodSpec(c, []rawExt{{o, c.IntN(2) == 0, b}}).der()
		within(c, "ParseCertificate", len(der), func() { cert.ParseCertificate(der) })
		q := reqWithExts([]rawExt{{o, false, b}}, poolPoint(c))
		within(c, "ParseCertificateRequest", len(q), func() { cert.ParseCertificateRequest(q) })
	}
	whole := ref.TLV(0x30, b, sm2SigAlg, ref.TLV(3, []byte{0}))
	hostileOps(c, whole)
	c.Distinct(b)
}
