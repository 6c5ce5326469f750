package props

import (
	"bytes"
	"crypto/cipher"
	"crypto/rand"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"fmt"
	"math/big"
	mrand "math/rand/v2"
	"net"
	"net/url"
	"regexp"
	"time"

	"github.com/ZZMarquis/gm/cryptobyte"
	"github.com/ZZMarquis/gm/sm2"
	"github.com/ZZMarquis/gm/sm2/cert"
	"github.com/ZZMarquis/gm/sm3"
	"github.com/ZZMarquis/gm/sm4"
	"github.com/ZZMarquis/gm/util"

	"vharness/mon"
	"vharness/ref"
)

// Calls that differ in one respect only are made in every order of two, on
// objects of their own or on objects that are used again with other values.
// Each must give the same whichever came before.

// twin is one of several nearly equal calls.
type twin struct {
	desc string
	run  func(s *shelf) string
}

// shelf hands out argument objects: new ones, or the same ones refilled.
type shelf struct {
	again bool
	pubs  map[int]*sm2.PublicKey
	privs map[int]*sm2.PrivateKey
	bufs  map[int][]byte
	ints  map[int]*big.Int
}

func newShelf(again bool) *shelf {
	return &shelf{again, map[int]*sm2.PublicKey{}, map[int]*sm2.PrivateKey{}, map[int][]byte{}, map[int]*big.Int{}}
}

func (s *shelf) num(slot int, v *big.Int) *big.Int {
	if !s.again {
		return cp(v)
	}
	if s.ints[slot] == nil {
		s.ints[slot] = new(big.Int)
	}
	return s.ints[slot].Set(v)
}

func (s *shelf) pub(slot int, p ref.Pt) *sm2.PublicKey {
	k := s.pubs[slot]
	if k == nil || !s.again {
		k = &sm2.PublicKey{X: new(big.Int), Y: new(big.Int), Curve: sm2.GetSm2P256V1()}
		s.pubs[slot] = k
	}
	k.X.Set(p.X)
	k.Y.Set(p.Y)
	return k
}

func (s *shelf) priv(slot int, d *big.Int) *sm2.PrivateKey {
	k := s.privs[slot]
	if k == nil || !s.again {
		k = &sm2.PrivateKey{D: new(big.Int), Curve: sm2.GetSm2P256V1()}
		s.privs[slot] = k
	}
	k.D.Set(d)
	return k
}

func (s *shelf) buf(slot int, b []byte) []byte {
	if b == nil {
		return nil
	}
	if !s.again {
		return clone(b)
	}
	if s.bufs[slot] == nil || cap(s.bufs[slot]) < len(b) {
		s.bufs[slot] = make([]byte, len(b)+64)
	}
	return s.bufs[slot][:copy(s.bufs[slot][:len(b)], b)]
}

// ---- values that are nearly equal ----

func nearBytes(c *mon.Case, b []byte) (l [][]byte) {
	l = append(l, b)
	if len(b) == 0 {
		return append(l, []byte{0})
	}
	first, last, any := clone(b), clone(b), clone(b)
	first[0] ^= 1
	last[len(b)-1] ^= 0x80
	any[c.IntN(len(b))] ^= 1 << c.IntN(8)
	return append(l, first, last, any, b[:len(b)-1], append(clone(b), 0), append([]byte{0}, b...))
}

func nearPoints(c *mon.Case, d *big.Int) []ref.Pt {
	p := ref.SM2.MulG(d)
	neg := ref.Pt{X: p.X, Y: new(big.Int).Sub(bigP, p.Y)}
	return []ref.Pt{p, neg, {X: p.X, Y: add(p.Y, 1)}, {X: add(p.X, 1), Y: p.Y}, {X: p.Y, Y: p.X}, ref.SM2.Add(p, ref.SM2.G), {X: new(big.Int), Y: new(big.Int)}}
}

func nearScalars(c *mon.Case, d *big.Int) []*big.Int {
	low := cp(d)
	low.SetBit(low, 0, low.Bit(0)^1)
	high := cp(d)
	high.SetBit(high, 250, high.Bit(250)^1)
	return []*big.Int{d, add(d, 1), low, high, new(big.Int).Sub(bigN, d), num(1), sub(bigN, 1)}
}

var nearIDs = [][]byte{nil, {}, ref.DefaultID, ref.DefaultID[:15], append(clone(ref.DefaultID), 0), []byte("1234567812345679"), bytes.Repeat([]byte{7}, 8191), bytes.Repeat([]byte{7}, 8192)}

// ---- families ----

// some keeps the first value and a few of the others.
func some[T any](c *mon.Case, l []T, n int) []T {
	out := []T{l[0]}
	for _, i := range c.Perm(len(l) - 1) {
		if len(out) >= n {
			break
		}
		out = append(out, l[i+1])
	}
	return out
}

var twinFamilies = []struct {
	name string
	make func(c *mon.Case) []twin
}{
	{"verify", func(c *mon.Case) (l []twin) {
		d, _ := anyKey(c)
		pt := ref.SM2.MulG(d)
		id, msg := nearIDs[c.IntN(5)], c.Bytes(1+c.IntN(100))
		uid := id
		if uid == nil {
			uid = ref.DefaultID
		}
		r, s, _ := ref.SM2.SignK(d, ref.SM2.E(pt, uid, msg), scalar(c))
		add1 := func(desc string, p ref.Pt, id, msg []byte, r, s *big.Int) {
			l = append(l, twin{desc, func(h *shelf) string {
				a := sm2.VerifyByRS(h.pub(0, p), h.buf(0, id), h.buf(1, msg), h.num(0, r), h.num(1, s))
				if r.Sign() < 0 || s.Sign() < 0 {
					return fmt.Sprint(a)
				}
				return fmt.Sprint(a, sm2.Verify(h.pub(0, p), h.buf(0, id), h.buf(1, msg), h.buf(2, ref.SigDER(r, s))))
			}})
		}
		add1("genuine", pt, id, msg, r, s)
		for _, p := range some(c, nearPoints(c, d), 4)[1:] {
			add1("another key", p, id, msg, r, s)
		}
		for _, i := range some(c, nearIDs, 3) {
			add1("another id", pt, i, msg, r, s)
		}
		for _, m := range some(c, nearBytes(c, msg), 3)[1:] {
			add1("another message", pt, id, m, r, s)
		}
		n := func(x *big.Int) *big.Int { return new(big.Int).Sub(bigN, x) }
		for _, v := range some(c, [][2]*big.Int{{r, s}, {s, r}, {n(r), s}, {r, n(s)}, {r, new(big.Int).Add(s, bigN)}, {new(big.Int), s}, {r, new(big.Int)}, {r, n(r)}}, 4)[1:] {
			add1("other numbers", pt, id, msg, v[0], v[1])
		}
		return l
	}},
	{"sign", func(c *mon.Case) (l []twin) {
		d, _ := anyKey(c)
		msg := c.Bytes(1 + c.IntN(100))
		add1 := func(desc string, d *big.Int, id, msg []byte) {
			l = append(l, twin{desc, func(h *shelf) string {
				r, s, err := sm2.SignToRS(h.priv(0, d), h.buf(0, id), h.buf(1, msg))
				b, err2 := sm2.Sign(h.priv(0, d), h.buf(0, id), h.buf(1, msg))
				return fmt.Sprint(r, s, err, b, err2)
			}})
		}
		add1("first", d, nil, msg)
		for _, k := range some(c, nearScalars(c, d), 4)[1:] {
			add1("another key", k, nil, msg)
		}
		for _, i := range some(c, nearIDs, 4)[1:] {
			add1("another id", d, i, msg)
		}
		for _, m := range some(c, nearBytes(c, msg), 3)[1:] {
			add1("another message", d, nil, m)
		}
		return l
	}},
	{"encrypt", func(c *mon.Case) (l []twin) {
		d, _ := anyKey(c)
		msg := c.Bytes(1 + c.IntN(100))
		add1 := func(desc string, p ref.Pt, msg []byte, t sm2.Sm2CipherTextType) {
			l = append(l, twin{desc, func(h *shelf) string {
				b, err := sm2.Encrypt(h.pub(0, p), h.buf(0, msg), t)
				return fmt.Sprintf("%x %v", b, err)
			}})
		}
		for _, p := range nearPoints(c, d)[:6] {
			add1("another key", p, msg, sm2.C1C3C2)
		}
		for _, m := range some(c, append(nearBytes(c, msg), []byte{}), 3)[1:] {
			add1("another message", ref.SM2.MulG(d), m, sm2.C1C3C2)
		}
		add1("another order", ref.SM2.MulG(d), msg, sm2.C1C2C3)
		add1("no order", ref.SM2.MulG(d), msg, 3)
		return l
	}},
	{"decrypt", func(c *mon.Case) (l []twin) {
		d, _ := anyKey(c)
		msg := c.Bytes(1 + c.IntN(100))
		pt := ref.SM2.MulG(d)
		ct := refEncrypt(c, pt, msg, nil, true)
		add1 := func(desc string, d *big.Int, ct []byte, t sm2.Sm2CipherTextType) {
			l = append(l, twin{desc, func(h *shelf) string {
				b, err := sm2.Decrypt(h.priv(0, d), h.buf(0, ct), t)
				m, err2 := sm2.MarshalCipher(h.buf(0, ct), t)
				var u []byte
				var err3 error
				if err2 == nil {
					u, err3 = sm2.UnmarshalCipher(h.buf(1, m), t)
				}
				return fmt.Sprintf("%x %v %x %v %x %v", b, err, m, err2, u, err3)
			}})
		}
		add1("genuine", d, ct, sm2.C1C3C2)
		for _, k := range some(c, nearScalars(c, d), 4)[1:] {
			add1("another key", k, ct, sm2.C1C3C2)
		}
		flip := func(at int) []byte { b := clone(ct); b[at] ^= 1; return b }
		for _, b := range [][]byte{flip(1 + c.IntN(32)), flip(33 + c.IntN(32)), flip(65 + c.IntN(32)), flip(97 + c.IntN(len(msg))), ct[:len(ct)-1], ct[:97], ct[:60]} {
			add1("another ciphertext", d, b, sm2.C1C3C2)
		}
		// the same first point, another plaintext
		neg := clone(ct)
		new(big.Int).Sub(bigP, new(big.Int).SetBytes(ct[33:65])).FillBytes(neg[33:65])
		add1("the negated point", d, neg, sm2.C1C3C2)
		add1("another order", d, ct, sm2.C1C2C3)
		add1("no order", d, ct, 0)
		return l
	}},
	{"key agreement", func(c *mon.Case) (l []twin) {
		type side struct {
			d, r   *big.Int
			p, e   ref.Pt
			id, of []byte
			bits   int
			first  bool
			tag    []byte
		}
		d, _ := anyKey(c)
		o, _ := anyKey(c)
		base := side{d, scalar(c), ref.SM2.MulG(o), ref.SM2.MulG(scalar(c)), []byte("a"), []byte("b"), 128 + c.IntN(300), false, nil}
		add1 := func(desc string, change func(s *side)) {
			s := base
			change(&s)
			l = append(l, twin{desc, func(h *shelf) string {
				res, err := sm2.CalculateKeyWithConfirmation(s.first, s.bits, h.buf(0, s.tag), h.priv(0, s.d), h.priv(1, s.r), h.buf(1, s.id), h.pub(0, s.p), h.pub(1, s.e), h.buf(2, s.of))
				if err != nil {
					return err.Error()
				}
				return fmt.Sprintf("%x %x %x", res.Key, res.S1, res.S2)
			}})
		}
		add1("first", func(s *side) {})
		add1("another key", func(s *side) { s.d = nearScalars(c, s.d)[1+c.IntN(4)] })
		add1("another ephemeral key", func(s *side) { s.r = nearScalars(c, s.r)[1+c.IntN(4)] })
		add1("keys exchanged", func(s *side) { s.d, s.r = s.r, s.d })
		add1("another peer", func(s *side) { s.p = nearPoints(c, o)[1+c.IntN(5)] })
		add1("another ephemeral peer", func(s *side) { s.e = ref.SM2.Add(s.e, ref.SM2.G) })
		add1("a bad ephemeral peer", func(s *side) { s.e = ref.Pt{X: s.e.X, Y: add(s.e.Y, 1)} })
		add1("ids exchanged", func(s *side) { s.id, s.of = s.of, s.id })
		add1("another id", func(s *side) { s.id = nearIDs[c.IntN(len(nearIDs))] })
		add1("a longer key", func(s *side) { s.bits++ })
		add1("the other role", func(s *side) { s.first, s.tag = true, make([]byte, 32) })
		if w, err := ref.SM2.KX(true, base.bits, base.d, base.r, base.id, base.p, base.e, base.of); err == nil {
			add1("the other role with its tag", func(s *side) { s.first, s.tag = true, w.S1 })
		}
		return l
	}},
	{"ciphers", func(c *mon.Case) (l []twin) {
		key, iv := c.Bytes(16), c.Bytes(16)
		data := c.Bytes(16 * (1 + c.IntN(40)))
		add1 := func(desc string, key, iv, data []byte) {
			l = append(l, twin{desc, func(h *shelf) string {
				k, v, d := h.buf(0, key), h.buf(1, iv), h.buf(2, data)
				a, e1 := sm4.ECBEncrypt(k, d)
				b, e2 := sm4.ECBDecrypt(k, d)
				e, e3 := sm4.CBCEncrypt(k, v, d)
				f, e4 := sm4.CBCDecrypt(k, v, d)
				out := make([]byte, 16)
				blk, e5 := sm4.NewCipher(k)
				if e5 == nil {
					var m cipher.Block = blk
					m.Encrypt(out, key)
					m.Decrypt(out[:16], out)
				}
				return fmt.Sprintf("%x %x %x %x %x %v %v %v %v %v", a, b, e, f, out, e1, e2, e3, e4, e5)
			}})
		}
		for _, k := range nearBytes(c, key) {
			add1("another key", k, iv, data)
		}
		for _, v := range some(c, nearBytes(c, iv), 4)[1:] {
			add1("another iv", key, v, data)
		}
		for _, d := range some(c, nearBytes(c, data), 4)[1:] {
			add1("other data", key, iv, d)
		}
		add1("no data", key, iv, nil)
		add1("all the same", key, key, append(clone(key), key...))
		return l
	}},
	{"hashes", func(c *mon.Case) (l []twin) {
		msg := c.Bytes(c.IntN(300))
		for _, m := range append(nearBytes(c, msg), nil, msg[:len(msg)/2], make([]byte, len(msg))) {
			m := m
			l = append(l, twin{fmt.Sprintf("%d bytes", len(m)), func(h *shelf) string {
				b := h.buf(0, m)
				a := sm3.Sum(b)
				g := sm3.New()
				g.Write(b[:len(b)/3])
				x := g.Sum(nil)
				g.Write(b[len(b)/3:])
				return fmt.Sprintf("%x %x %x", a, x, g.Sum(nil))
			}})
			l = append(l, twin{fmt.Sprintf("padding of %d bytes", len(m)), func(h *shelf) string {
				b := h.buf(0, m)
				return fmt.Sprintf("%x %x %x", util.PKCS5Padding(b, 16), util.ZeroPadding(b, 16), util.PKCS5UnPadding(b))
			}})
		}
		return l
	}},
	{"keys", func(c *mon.Case) (l []twin) {
		d, _ := anyKey(c)
		for _, p := range nearPoints(c, d) {
			p := p
			l = append(l, twin{"a point", func(h *shelf) string {
				raw := append(bytes32(p.X), bytes32(p.Y)...)
				k, err := sm2.RawBytesToPublicKey(h.buf(0, raw))
				if err != nil {
					return err.Error()
				}
				return fmt.Sprintf("%x %x %x %x", k.X, k.Y, k.GetRawBytes(), h.pub(0, p).GetUnCompressBytes())
			}})
		}
		for _, k := range nearScalars(c, d) {
			k := k
			l = append(l, twin{"a scalar", func(h *shelf) string {
				q, err := sm2.RawBytesToPrivateKey(h.buf(0, bytes32(k)))
				if err != nil {
					return err.Error()
				}
				p := sm2.CalculatePubKey(h.priv(0, k))
				return fmt.Sprintf("%x %x %x %x %x", q.D, q.GetRawBytes(), h.priv(0, k).GetRawBytes(), p.X, p.Y)
			}})
		}
		return l
	}},
	{"certificates", func(c *mon.Case) (l []twin) {
		add1 := func(desc string, der []byte) {
			l = append(l, twin{desc, func(h *shelf) string { return certView(cert.ParseCertificate(h.buf(0, der))) }})
		}
		var all []rawExt
		for _, o := range overridable {
			all = append(all, rawExt{o, c.IntN(3) == 0, validExtValue(c, o)})
		}
		s := goodSpec(c, all)
		add1("with everything", s.der())
		t := *s
		t.extsRaw = nil
		add1("without extensions", t.der())
		t.version = nil
		add1("of the first version", t.der())
		t.uniques = append(ref.TLV(0x81, c.Bytes(3)), ref.TLV(0x82, c.Bytes(3))...)
		add1("with unique ids", t.der())
		few := goodSpec(c, all[:c.IntN(len(all))])
		few.serial, few.issuer, few.subject, few.sig = s.serial, s.issuer, s.subject, s.sig
		add1("with some extensions", few.der())
		t = *s
		t.subject = rawName(pkix.Name{Organization: []string{"o"}})
		add1("of another name", t.der())
		t.subject = rawName(pkix.Name{})
		add1("of no name", t.der())
		t = *s
		t.spki = spkiOf(poolPoint(c))
		add1("of another key", t.der())
		for i := 0; i < 4; i++ {
			roots, _ := parseTree(s.der(), 0)
			mutateTree(c, roots)
			if m := roots[0].enc(); len(m) < 1<<15 {
				add1("changed", m)
			}
		}
		add1("cut", s.der()[:100])
		return l
	}},
	{"requests", func(c *mon.Case) (l []twin) {
		d, _ := anyKey(c)
		id := []byte("1234")
		der, _ := madeReq(c, d, id)
		add1 := func(desc string, der, id []byte) {
			l = append(l, twin{desc, func(h *shelf) string {
				b := h.buf(0, der)
				q, err := cert.ParseCertificateRequest(b)
				v := reqView(q, err)
				ok, err2 := cert.VerifyDERCSRSign(b, h.buf(1, id))
				if err == nil {
					v += fmt.Sprint(cert.VerifyCSRSign(q, h.buf(1, id)))
					t := &x509.Certificate{SerialNumber: num(5), DNSNames: []string{"old"}, Extensions: []pkix.Extension{{}}}
					cert.FillCertificateTemplateByCSR(t, q)
					i, err := cert.CreateCertificateInfo(t, t, q)
					if err == nil {
						v += fmt.Sprintf("%x", i.Raw)
					}
					v += fmt.Sprint(err)
				}
				return v + fmt.Sprint(ok, err2)
			}})
		}
		add1("genuine", der, id)
		for _, i := range [][]byte{nil, {}, []byte("1235"), []byte("123")} {
			add1("with another id", der, i)
		}
		add1("without attributes", reqWithAttrs(nil, ref.SM2.MulG(d)), id)
		add1("with attributes", reqWithAttrs(anyAttrs(c), ref.SM2.MulG(d)), id)
		add1("with names", reqWithExts([]rawExt{{oidSANExt, false, validExtValue(c, oidSANExt)}}, ref.SM2.MulG(d)), id)
		for i := 0; i < 4; i++ {
			roots, _ := parseTree(der, 0)
			mutateTree(c, roots)
			if m := roots[0].enc(); len(m) < 1<<15 {
				add1("changed", m, id)
			}
		}
		last := clone(der)
		last[len(last)-1] ^= 1
		add1("with another signature", last, id)
		return l
	}},
	{"issuing", func(c *mon.Case) (l []twin) {
		d, _ := anyKey(c)
		der, _ := madeReq(c, d, nil)
		other := reqWithAttrs(nil, ref.SM2.MulG(add(d, 1)))
		base := fullTemplate(c)
		parent := &x509.Certificate{Subject: pkix.Name{CommonName: "ca"}, SubjectKeyId: c.Bytes(20)}
		add1 := func(desc string, req []byte, change func(t, p *x509.Certificate)) {
			t, p := *base, *parent
			change(&t, &p)
			l = append(l, twin{desc, func(h *shelf) string {
				q, err := cert.ParseCertificateRequest(h.buf(0, req))
				if err != nil {
					return err.Error()
				}
				i, err := cert.CreateCertificateInfo(&t, &p, q)
				if err != nil {
					return err.Error()
				}
				b, err := cert.IssueCertificateBySoftCAKey(i, h.priv(0, num(7)), nil)
				return fmt.Sprintf("%x %x %v", i.Raw, b, err)
			}})
		}
		add1("full", der, func(t, p *x509.Certificate) {})
		add1("for another request", other, func(t, p *x509.Certificate) {})
		add1("empty", der, func(t, p *x509.Certificate) { *t = x509.Certificate{SerialNumber: num(1)} })
		add1("without a serial number", der, func(t, p *x509.Certificate) { t.SerialNumber = nil })
		add1("by a parent without a key id", der, func(t, p *x509.Certificate) { p.SubjectKeyId = nil })
		add1("by itself", der, func(t, p *x509.Certificate) { *p = *t })
		changes := []func(t *x509.Certificate){
			func(t *x509.Certificate) { t.KeyUsage = 0 },
			func(t *x509.Certificate) { t.KeyUsage = x509.KeyUsageDecipherOnly },
			func(t *x509.Certificate) { t.ExtKeyUsage = nil },
			func(t *x509.Certificate) { t.UnknownExtKeyUsage = nil },
			func(t *x509.Certificate) { t.ExtKeyUsage = []x509.ExtKeyUsage{99} },
			func(t *x509.Certificate) { t.BasicConstraintsValid = false },
			func(t *x509.Certificate) { t.IsCA = false },
			func(t *x509.Certificate) { t.MaxPathLen = 0 },
			func(t *x509.Certificate) { t.MaxPathLen, t.MaxPathLenZero = 0, true },
			func(t *x509.Certificate) { t.SubjectKeyId = nil },
			func(t *x509.Certificate) { t.AuthorityKeyId = []byte{1, 2} },
			func(t *x509.Certificate) { t.DNSNames = nil },
			func(t *x509.Certificate) { t.DNSNames = []string{"b.cn"} },
			func(t *x509.Certificate) { t.URIs, t.IPAddresses = nil, nil },
			func(t *x509.Certificate) { t.PermittedDNSDomains = nil },
			func(t *x509.Certificate) { t.PermittedDNSDomainsCritical = !t.PermittedDNSDomainsCritical },
			func(t *x509.Certificate) { t.ExcludedDNSDomains = []string{"\u00ff"} },
			func(t *x509.Certificate) { t.PermittedIPRanges = nil },
			func(t *x509.Certificate) { t.CRLDistributionPoints = nil },
			func(t *x509.Certificate) { t.OCSPServer = nil },
			func(t *x509.Certificate) { t.IssuingCertificateURL = nil },
			func(t *x509.Certificate) { t.PolicyIdentifiers = nil },
			func(t *x509.Certificate) { t.ExtraExtensions = nil },
			func(t *x509.Certificate) { t.Subject = pkix.Name{} },
			func(t *x509.Certificate) { t.NotAfter = time.Unix(4e9, 0) },
			func(t *x509.Certificate) { t.NotAfter = t.NotAfter.In(time.FixedZone("x", 3600)) },
			func(t *x509.Certificate) { t.NotBefore = time.Date(-1, 1, 1, 0, 0, 0, 0, time.UTC) },
		}
		for _, i := range c.Perm(len(changes))[:7] {
			f := changes[i]
			add1(fmt.Sprint("with change ", i), der, func(t, p *x509.Certificate) { f(t) })
		}
		return l
	}},
	{"requesting", func(c *mon.Case) (l []twin) {
		d, _ := anyKey(c)
		base := x509.CertificateRequest{Subject: pkix.Name{CommonName: "req", Organization: []string{"o"}}, DNSNames: []string{"a.cn", "b.cn"}, EmailAddresses: []string{"a@b.cn"},
			ExtraExtensions: []pkix.Extension{{Id: asn1.ObjectIdentifier{1, 2, 3}, Value: []byte{5, 0}}},
			Attributes: []pkix.AttributeTypeAndValueSET{{Type: asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 14}, Value: [][]pkix.AttributeTypeAndValue{
				{{Type: asn1.ObjectIdentifier{1, 2, 3, 5}, Value: []byte{5, 0}}}}}}}
		add1 := func(desc string, d *big.Int, id []byte, change func(t *x509.CertificateRequest)) {
			t := base
			change(&t)
			l = append(l, twin{desc, func(h *shelf) string {
				b, err := cert.CreateCertificateRequest(&t, h.pub(0, ref.SM2.MulG(d)), h.priv(0, d), h.buf(0, id))
				return fmt.Sprintf("%x %v", b, err)
			}})
		}
		no := func(t *x509.CertificateRequest) {}
		add1("full", d, nil, no)
		add1("of another key", add(d, 1), nil, no)
		add1("with another id", d, []byte("x"), no)
		add1("with a long id", d, make([]byte, 8192), no)
		add1("empty", d, nil, func(t *x509.CertificateRequest) { *t = x509.CertificateRequest{} })
		add1("without attributes", d, nil, func(t *x509.CertificateRequest) { t.Attributes = nil })
		add1("without extensions", d, nil, func(t *x509.CertificateRequest) { t.ExtraExtensions = nil })
		add1("without names", d, nil, func(t *x509.CertificateRequest) { t.DNSNames, t.EmailAddresses = nil, nil })
		add1("with a bad name", d, nil, func(t *x509.CertificateRequest) {
			t.ExtraExtensions = append([]pkix.Extension(nil), pkix.Extension{Id: asn1.ObjectIdentifier{9, 9}, Value: []byte{5, 0}})
		})
		add1("with addresses", d, nil, func(t *x509.CertificateRequest) { t.IPAddresses = []net.IP{net.IPv4(1, 2, 3, 4)} })
		return l
	}},
	{"codecs", func(c *mon.Case) (l []twin) {
		r, s := int256(c), int256(c)
		der := ref.SigDER(r, s)
		ct := refEncrypt(c, poolPoint(c), c.Bytes(1+c.IntN(60)), nil, true)
		cd, _ := ref.CipherDER(ct, true)
		var in [][]byte
		in = append(in, nearBytes(c, der)...)
		in = append(in, nearBytes(c, cd)...)
		in = append(in, ref.SigDER(s, r), ref.SigDER(r, num(0)), ref.TLV(0x30, ref.DERInt(num(-5)), ref.DERInt(s)))
		for _, b := range in {
			b := b
			l = append(l, twin{fmt.Sprintf("%x", b[:4]), func(h *shelf) string {
				x := h.buf(0, b)
				r, s, err := sm2.UnmarshalSign(x)
				a, e1 := sm2.UnmarshalCipher(x, sm2.C1C3C2)
				d, e2 := sm2.UnmarshalCipher(x, sm2.C1C2C3)
				return fmt.Sprintf("%v %v %v %x %v %x %v", r, s, err, a, e1, d, e2)
			}})
		}
		return l
	}},
	{"builders and readers", func(c *mon.Case) (l []twin) {
		for i := 0; i < 8; i++ {
			ops := anyOps(c, 2, i%3 == 2, 6)
			fixed := -1
			if i%3 == 1 {
				fixed = c.IntN(40)
			}
			bad := false
			for _, o := range ops {
				bad = bad || o.bad
			}
			l = append(l, twin{descOf(ops), func(h *shelf) string {
				b := cryptobyte.NewBuilder(nil)
				if fixed >= 0 {
					b = cryptobyte.NewFixedBuilder(make([]byte, 0, fixed))
				}
				runOps(b, ops)
				out, err := b.Bytes()
				return fmt.Sprintf("%x %v", out, err)
			}})
		}
		for i := 0; i < 6; i++ {
			b := c.Bytes(c.IntN(12))
			if i%2 == 0 {
				ops := anyOps(c, 1, false, 3)
				b, _ = wantBytes(ops)
			}
			if len(b) > 1<<12 {
				b = b[:1<<12]
			}
			l = append(l, twin{fmt.Sprintf("reading %x", b[:min(len(b), 8)]), func(h *shelf) string {
				out := ""
				for _, o := range readOpsOf {
					s := cryptobyte.String(h.buf(0, b))
					ok, v := o.run(&s)
					out += fmt.Sprint(ok, len(s))
					if ok {
						out += v
					}
				}
				return out
			}})
		}
		return l
	}},
}

func bytes32(x *big.Int) []byte {
	b := make([]byte, 32)
	if x.BitLen() > 256 {
		return b
	}
	return x.FillBytes(b)
}

// fullTemplate uses every field.
func fullTemplate(c *mon.Case) *x509.Certificate {
	u, _ := url.Parse("http://u.cn/")
	_, n, _ := net.ParseCIDR("10.0.0.0/8")
	return &x509.Certificate{SerialNumber: num(1 + int64(c.IntN(1000))), Subject: pkix.Name{CommonName: "cn"}, NotBefore: time.Unix(1600000000, 0), NotAfter: time.Unix(1900000000, 0),
		KeyUsage: x509.KeyUsageCertSign, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}, UnknownExtKeyUsage: []asn1.ObjectIdentifier{{1, 2, 3, 4}}, BasicConstraintsValid: true, IsCA: true, MaxPathLen: 2,
		SubjectKeyId: c.Bytes(20), DNSNames: []string{"a.cn"}, EmailAddresses: []string{"a@b.cn"}, IPAddresses: []net.IP{net.IPv4(1, 2, 3, 4).To4()}, URIs: []*url.URL{u},
		PermittedDNSDomains: []string{"a.cn"}, PermittedIPRanges: []*net.IPNet{n}, CRLDistributionPoints: []string{"http://a.cn/crl"}, OCSPServer: []string{"http://o.cn"}, IssuingCertificateURL: []string{"http://i.cn"},
		PolicyIdentifiers: []asn1.ObjectIdentifier{{1, 2, 3}}, ExtraExtensions: []pkix.Extension{{Id: asn1.ObjectIdentifier{1, 2, 3, 9}, Value: []byte{5, 0}}}}
}

func keyView(k any) string {
	if p, ok := k.(*sm2.PublicKey); ok && p != nil {
		return fmt.Sprintf("%x %x", p.X, p.Y)
	}
	return fmt.Sprintf("%T", k)
}

func certView(x *x509.Certificate, err error) string {
	if err != nil {
		return err.Error()
	}
	return fmt.Sprint(semantics(x), keyView(x.PublicKey), fmt.Sprintf("%x %x %x %x %x %v %v %v %v %v %d %v %v %v %v", ref.SM3(x.Raw), ref.SM3(x.RawTBSCertificate), x.RawSubject, x.RawIssuer, x.Signature,
		x.Subject, x.Issuer, x.NotBefore.Unix(), x.NotAfter.Unix(), x.SerialNumber, x.Version, x.Extensions, x.UnhandledCriticalExtensions, x.DNSNames, x.Subject.Names))
}

func reqView(q *x509.CertificateRequest, err error) string {
	if err != nil {
		return err.Error()
	}
	return fmt.Sprint(reqSemantics(q), keyView(q.PublicKey), fmt.Sprintf("%x %x %x %x %v %v %v %d %v", ref.SM3(q.Raw), ref.SM3(q.RawTBSCertificateRequest), q.RawSubject, q.Signature,
		q.Subject, q.Extensions, q.Attributes, q.Version, q.Subject.Names))
}

// noAddresses drops addresses, which some error texts contain.
func noAddresses(s string) string { return address.ReplaceAllString(s, "0x") }

var address = regexp.MustCompile(`0x[0-9a-f]{6,}`)

// call gives what a twin returns with its own randomness.
func (t *twin) call(seed uint64, h *shelf) (out string) {
	var k [32]byte
	for i := range k {
		k[i] = byte(seed >> (8 * (i % 8)))
	}
	old := rand.Reader
	rand.Reader = mrand.NewChaCha8(k)
	defer func() { rand.Reader = old }()
	if p, bad := mon.Panics(func() { out = t.run(h) }); bad {
		return fmt.Sprint("panic: ", p)
	}
	return noAddresses(out)
}

func c31Twins(c *mon.Case) {
	f := twinFamilies[c.Idx%len(twinFamilies)]
	l := f.make(c)
	seed := c.Uint64()
	c.Note("family", f.name)
	fresh := newShelf(false)
	want := make([]string, len(l))
	for _, i := range c.Perm(len(l)) {
		want[i] = l[i].call(seed+uint64(i), fresh)
	}
	again := newShelf(true)
	check := func(i, before int, h *shelf) {
		if got := l[i].call(seed+uint64(i), h); got != want[i] {
			c.Fail("twins/"+f.name, "%s: %q gives another result after %q: %s", f.name, l[i].desc, l[before].desc, firstDiff(want[i], got))
		}
		c.Ev("results compared")
		c.Ev("twins compared")
	}
	for _, h := range []*shelf{fresh, again} {
		for _, i := range c.Perm(len(l)) {
			for _, j := range c.Perm(len(l)) {
				if h == again && c.IntN(2) == 0 {
					continue
				}
				check(i, j, h)
				check(j, i, h)
			}
		}
	}
	c.Distinct(fmt.Sprint(want))
	c.Sample("%s: %d nearly equal calls gave the same in every order of two", f.name, len(l))
}
