package props

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/rsa"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"fmt"
	"math/big"
	"net"
	"sort"
	"strings"
	"time"

	"github.com/ZZMarquis/gm/sm2"
	"github.com/ZZMarquis/gm/sm2/cert"

	"vharness/mon"
	"vharness/ref"
)

func init() {
	register(&mon.Prop{
		ID:   "C19",
		Rule: "cases create requests from random templates over every field (names, alternative names, attributes, explicit extensions, overrides), read the DER independently, verify the signature independently, compare with the request the standard library makes from the same template and with both parsers' views, and compare deep snapshots of the template; distinct by DER",
		Workloads: []mon.Workload{
			{Name: "templates", Quick: 12500, Thorough: 100000, Run: c19Template},
			{Name: "overrides", Quick: 3000, Thorough: 24000, Run: c19Override},
			{Name: "opaque", Quick: 2000, Thorough: 16000, Run: c19Opaque},
			{Name: "reused", Quick: 600, Thorough: 6000, Run: c19Reused},
			{Name: "invalid", Quick: 500, Thorough: 4000, Run: c19Invalid},
		},
		Need: map[string]int64{"requests": 2500, "with-extensions": 500, "with-attributes": 500, "std-agrees": 2000, "opaque": 1000, "reused-object": 500},
	})
	register(&mon.Prop{
		ID:   "C20",
		Rule: "cases verify requests made here and by an independent encoder and signer, then every kind of modification (bits, ids, signatures, keys, substituted parts), comparing each verdict with an independent verifier; distinct by DER and id",
		Workloads: []mon.Workload{
			{Name: "bits", Quick: 160, Thorough: 1500, Run: c20Bits},
			{Name: "foreign", Quick: 400, Thorough: 8000, Run: c20Foreign},
			{Name: "substitute", Quick: 300, Thorough: 6000, Run: c20Substitute},
			{Name: "ids", Quick: 150, Thorough: 3000, Run: c20IDs},
			{Name: "objects", Quick: 100, Thorough: 1000, Run: c20Objects},
		},
		Need: map[string]int64{"genuine": 600, "forged": 5000, "objects": 500},
	})
	register(&mon.Prop{
		ID:   "C21",
		Rule: "cases issue certificates from random templates over every field with random parents, requests, CA keys and ids through both signing paths, read the DER independently, verify the signature independently, compare the extensions with those the standard library derives from the same template, re-parse, and compare deep snapshots of all arguments; distinct by DER",
		Workloads: []mon.Workload{
			{Name: "issue", Quick: 10000, Thorough: 80000, Run: c21Issue},
			{Name: "chain", Quick: 600, Thorough: 4800, Run: c21Chain},
			{Name: "fields", Quick: 1200, Thorough: 12000, Run: c21Fields},
			{Name: "opaque", Quick: 2000, Thorough: 16000, Run: c21Opaque},
			{Name: "reused", Quick: 500, Thorough: 5000, Run: c21Reused},
			{Name: "refused", Quick: 100, Thorough: 600, Run: c21Refused},
		},
		Need: map[string]int64{"issued": 3000, "std-agrees": 2000, "external": 500, "parsed": 3000, "opaque": 1000, "issued-again": 1000, "reused-object": 500, "filled-subject": 500},
	})
}

// ---- C19 ----

func c19Template(c *mon.Case) {
	c19One(c, anyReqTemplate(c))
}

// c19Reused creates several requests with the same template and key structures
// and id memory, which hold other values each time.
func c19Reused(c *mon.Case) {
	t := anyReqTemplate(c)
	for i := 0; i < 4; i++ {
		c19One(c, t)
		switch c.IntN(3) {
		case 0:
			t = anyReqTemplate(c)
		case 1: // only some fields
			u := *t
			u.Subject, u.RawSubject = anyName(c), nil
			t = &u
		case 2:
			u := *t
			u.DNSNames, u.EmailAddresses, u.IPAddresses, u.URIs = anySANs(c)
			t = &u
		}
	}
}

// c19Override concentrates on explicit extensions and attributes against
// derived ones.
func c19Override(c *mon.Case) {
	t := &x509.CertificateRequest{Subject: pkix.Name{CommonName: anyStr(c)}}
	for i := 0; i < 1+c.IntN(3); i++ {
		t.DNSNames = append(t.DNSNames, anyDNS(c))
	}
	if c.IntN(2) == 0 {
		t.EmailAddresses = []string{anyEmail(c)}
	}
	if c.IntN(2) == 0 {
		t.IPAddresses = []net.IP{anyIP(c)}
	}
	if c.IntN(2) == 0 {
		t.ExtraExtensions = []pkix.Extension{{Id: oidSANExt, Value: validExtValue(c, oidSANExt)}}
	}
	if c.IntN(2) == 0 {
		t.ExtraExtensions = append(t.ExtraExtensions, pkix.Extension{Id: asn1.ObjectIdentifier{2, 5, 29, 15}, Critical: c.IntN(2) == 0, Value: []byte{3, 2, 1, 6}})
	}
	if c.IntN(2) == 0 {
		l := []pkix.AttributeTypeAndValue{{Type: asn1.ObjectIdentifier{1, 2, 3, 4}, Value: []byte{1}}}
		if c.IntN(2) == 0 {
			l = append(l, pkix.AttributeTypeAndValue{Type: oidSANExt, Value: validExtValue(c, oidSANExt)})
		}
		if c.IntN(2) == 0 {
			l = append(l, pkix.AttributeTypeAndValue{Type: asn1.ObjectIdentifier{2, 5, 29, 15}, Value: []byte{3, 2, 7, 0x80}})
		}
		t.Attributes = []pkix.AttributeTypeAndValueSET{{Type: oidExtReq, Value: [][]pkix.AttributeTypeAndValue{l}}}
		if c.IntN(3) == 0 {
			t.Attributes = append([]pkix.AttributeTypeAndValueSET{{Type: asn1.ObjectIdentifier{1, 2, 99, 1}, Value: [][]pkix.AttributeTypeAndValue{{{Type: asn1.ObjectIdentifier{1, 2, 3}, Value: "v"}}}}}, t.Attributes...)
		}
	}
	c19One(c, t)
}

// expectedReqExts derives, independently of both libraries' builders, the
// extension list a request must carry.
func expectedReqExts(t *x509.CertificateRequest) []extPart {
	var out []extPart
	stated := map[string]bool{}
	for _, a := range t.Attributes {
		if !a.Type.Equal(oidExtReq) {
			continue
		}
		for _, l := range a.Value {
			for _, x := range l {
				stated[x.Type.String()] = true
			}
		}
	}
	// the parsers look at the first value of each attribute only
	for _, a := range t.Attributes {
		if a.Type.Equal(oidExtReq) && len(a.Value) > 0 {
			for _, x := range a.Value[0] {
				if b, ok := x.Value.([]byte); ok {
					out = append(out, extPart{x.Type.String(), false, b})
				}
			}
		}
	}
	// an extension added to a stated attribute has no place for its flag
	merged := len(out) > 0
	for _, a := range t.Attributes {
		merged = merged || a.Type.Equal(oidExtReq) && len(a.Value) > 0
	}
	explicitSAN := false
	for _, e := range t.ExtraExtensions {
		if e.Id.Equal(oidSANExt) {
			explicitSAN = true
		}
		if !stated[e.Id.String()] {
			out = append(out, extPart{e.Id.String(), e.Critical && !merged, e.Value})
		}
	}
	if !explicitSAN && !stated[oidSANExt.String()] && len(t.DNSNames)+len(t.EmailAddresses)+len(t.IPAddresses)+len(t.URIs) > 0 {
		out = append(out, extPart{oidSANExt.String(), false, sanValue(t)})
	}
	return out
}

func sanValue(t *x509.CertificateRequest) []byte {
	var in []byte
	for _, s := range t.DNSNames {
		in = append(in, ref.TLV(0x82, []byte(s))...)
	}
	for _, s := range t.EmailAddresses {
		in = append(in, ref.TLV(0x81, []byte(s))...)
	}
	for _, ip := range t.IPAddresses {
		b := []byte(ip)
		if v4 := ip.To4(); v4 != nil {
			b = v4
		}
		in = append(in, ref.TLV(0x87, b)...)
	}
	for _, u := range t.URIs {
		in = append(in, ref.TLV(0x86, []byte(u.String()))...)
	}
	return ref.TLV(0x30, in)
}

func reqSemantics(r *x509.CertificateRequest) map[string]string {
	return map[string]string{
		"dns": fmt.Sprintf("%q", r.DNSNames), "email": fmt.Sprintf("%q", r.EmailAddresses),
		"ip": ipList(r.IPAddresses), "uri": uriList(r.URIs), "subject": dumpNoCap(r.Subject),
		"rawSubject": fmt.Sprintf("%x", r.RawSubject), "version": fmt.Sprint(r.Version),
		"extensions": extListString(pkixExts(r.Extensions)), "attributes": dumpNoCap(r.Attributes),
	}
}

func c19One(c *mon.Case, t *x509.CertificateRequest) {
	roomy(t)
	d, kind := anyKey(c)
	id := anyID(c)
	t = slotObj(c, "request-template", t)
	pt := ref.SM2.MulG(d)
	pri, pub := slotPriv(c, "request", d), slotPub(c, "request", pt)
	c.Note("template", dumpNoCap(*t))
	c.Note("d", d)
	c.Note("id", id)
	idf := c.FreezeAs("id", id)
	before := dump(t)
	keys := dump(pub) + dump(pri.D)
	der, err := cert.CreateCertificateRequest(t, pub, pri, idf.B)
	if err != nil {
		c.Fail("error", "a valid template was refused: %v", err)
	}
	c.Note("der", der)
	if a := dump(t); a != before {
		c.Fail("template-modified", "creating a request changed the template: %s", firstDiff(before, a))
	}
	if dump(pub)+dump(pri.D) != keys {
		c.Fail("key-modified", "creating a request changed the keys")
	}
	c.Check(idf.Changed() == "", "id-modified", "%s", idf.Changed())
	p, err := readReq(der)
	if err != nil {
		c.Fail("structure", "the request is not well-formed DER: %v", err)
	}
	c.Check(p.version == 0, "version", "version %d", p.version)
	wantSubj := t.RawSubject
	if len(wantSubj) == 0 {
		wantSubj = rawName(t.Subject)
	}
	same(c, "subject", p.subject, wantSubj, "subject")
	same(c, "spki", p.spki, spkiOf(pt), "subject public key info")
	checkSigAlg(c, p.outerAlg)
	r, s, err := ref.ParseSig(p.sig)
	if err != nil {
		c.Fail("signature", "the signature is not DER: %x", p.sig)
	}
	c.Check(ref.SM2.Verify(pt, id, p.tbs, r, s), "signature", "the independent verifier rejects the request's signature")
	ok, err := cert.VerifyDERCSRSign(der, id)
	c.Check(ok && err == nil, "verify", "VerifyDERCSRSign: %v %v", ok, err)
	// parse here
	q, err := cert.ParseCertificateRequest(der)
	if err != nil {
		c.Fail("parse", "the library does not parse its own request: %v", err)
	}
	gp, isPub := q.PublicKey.(*sm2.PublicKey)
	c.Check(isPub && ref.SM2.Eq(ptOf(gp), pt), "parsed-key", "parsed public key differs")
	same(c, "parsed-raw", q.RawTBSCertificateRequest, p.tbs, "parsed signed part")
	same(c, "parsed-signature", q.Signature, p.sig, "parsed signature")
	want := extListString(expectedReqExts(t))
	if got := extListString(pkixExts(q.Extensions)); got != want {
		c.Fail("extensions", "requested extensions: got\n%s\nwant\n%s", got, want)
	}
	if want != "" {
		c.Ev("with-extensions")
	}
	if len(t.Attributes) > 0 {
		c.Ev("with-attributes")
	}
	// parse with the standard library, and compare with its own request
	sd, err := toStd(der, true)
	if err != nil {
		c.Fail("structure", "%v", err)
	}
	sq, serr := x509.ParseCertificateRequest(sd)
	tm, terr := x509.CreateCertificateRequest(&fixedRand{}, t, stdKey())
	if terr == nil {
		tq, e := x509.ParseCertificateRequest(tm)
		if e == nil {
			c.Check(serr == nil, "std-parse", "the standard library refuses the request but accepts its own: %v", serr)
			if x := diffMaps(reqSemantics(sq), reqSemantics(tq)); x != "" {
				c.Fail("std-differs", "request differs from the standard library's for the same template: %s", x)
			}
			if x := diffMaps(reqSemantics(q), reqSemantics(tq)); x != "" {
				c.Fail("parse-differs", "parsed request differs from the standard library's view: %s", x)
			}
			c.Ev("std-agrees")
		}
	}
	if len(t.RawSubject) == 0 {
		var want pkix.Name
		var rdn pkix.RDNSequence
		if _, err := asn1.Unmarshal(wantSubj, &rdn); err == nil {
			want.FillFromRDNSequence(&rdn)
			if x := sameName(q.Subject, want); x != "" {
				c.Fail("parsed-subject", "%s", x)
			}
		}
	}
	c.Ev("requests")
	c.Ev("key-" + kind)
	c.Distinct(der)
	c.Sample("subject %q, %d bytes, extensions: %s", t.Subject.String(), len(der), strings.ReplaceAll(want, "\n", "; "))
}

func checkSigAlg(c *mon.Case, alg []byte) {
	e, err := seqOf(alg)
	if err != nil || len(e) < 1 || !bytes.Equal(e[0].full, oidSM2Sig) {
		c.Fail("algorithm", "signature algorithm is %x", alg)
	}
}

func c19Invalid(c *mon.Case) {
	t := anyReqTemplate(c)
	roomy(t)
	before := dump(t)
	d := keyOf(c, "rand")
	pub := gmPub(ref.SM2.MulG(d))
	which := []string{"priv-n-1", "long-id"}[c.Idx%2]
	id := anyID(c)
	x := cp(d)
	switch which {
	case "priv-n-1":
		x = sub(bigN, 1)
	case "long-id":
		id = c.Bytes(8192 + c.IntN(3))
	}
	c.NoPanic("panic", func() {
		der, err := cert.CreateCertificateRequest(t, pub, &sm2.PrivateKey{D: x, Curve: sm2.GetSm2P256V1()}, id)
		c.Check(err != nil && der == nil, "accepted", "%s: a request was produced without an error", which)
	})
	if a := dump(t); a != before {
		c.Fail("template-modified", "creating a request changed the template: %s", firstDiff(before, a))
	}
	c.Ev("refused")
}

// ---- C20 ----

// madeReq is a request built and signed without the library.
func madeReq(c *mon.Case, d *big.Int, id []byte) (der []byte, pt ref.Pt) {
	pt = ref.SM2.MulG(d)
	subj := rawName(anyName(c))
	var attrs []byte
	for i := c.IntN(4) - 1; i > 0; i-- {
		// challengePassword and friends
		attrs = append(attrs, ref.TLV(0x30, []byte{6, 9, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 9, 7}, ref.TLV(0x31, ref.TLV(0x0c, []byte(anyStr(c)))))...)
	}
	if c.IntN(2) == 0 {
		ext := ref.TLV(0x30, []byte{6, 3, 0x55, 0x1d, 0x11}, ref.TLV(4, validExtValue(c, oidSANExt)))
		attrs = append(attrs, ref.TLV(0x30, []byte{6, 9, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 9, 14}, ref.TLV(0x31, ref.TLV(0x30, ext)))...)
	}
	tbs := ref.TLV(0x30, []byte{2, 1, 0}, subj, spkiOf(pt), ref.TLV(0xa0, attrs))
	return signedBy(c, tbs, d, id), pt
}

func signedBy(c *mon.Case, tbs []byte, d *big.Int, id []byte) []byte {
	e := ref.SM2.E(ref.SM2.MulG(d), id, tbs)
	for {
		if r, s, ok := ref.SM2.SignK(d, e, scalar(c)); ok {
			return assemble(tbs, sm2SigAlg, ref.SigDER(r, s))
		}
	}
}

func assemble(tbs, alg, sig []byte) []byte {
	return ref.TLV(0x30, tbs, alg, ref.TLV(3, []byte{0}, sig))
}

// judge compares the library's verdict with an independent one.
func c20Judge(c *mon.Case, der, id []byte, key, what string) bool {
	c.Note("der", der)
	c.Note("id", id)
	want := false
	if p, err := readReq(der); err == nil {
		if pt, on := pointOf(p.spkiKey); on {
			if r, s, err := ref.ParseSig(p.sig); err == nil {
				want = ref.SM2.Verify(pt, id, p.tbs, r, s)
			}
		}
	}
	f, g := c.FreezeAs("der", der), c.FreezeAs("id", id)
	var got, obj bool
	var err error
	c.NoPanic("panic", func() {
		got, err = cert.VerifyDERCSRSign(f.B, g.B)
		if q, e := cert.ParseCertificateRequest(f.B); e == nil {
			q = slotObj(c, "request-object", q)
			before := dump(q)
			obj = cert.VerifyCSRSign(q, g.B)
			if a := dump(q); a != before {
				c.Fail("request-modified", "verification changed the request: %s", firstDiff(before, a))
			}
			if err != nil {
				c.Fail("error", "VerifyDERCSRSign fails (%v) where parsing succeeds", err)
			}
		} else if err == nil {
			c.Fail("error", "VerifyDERCSRSign reports no error where parsing fails: %v", e)
		}
	})
	c.Check(f.Changed() == "" && g.Changed() == "", "modified", "%s%s", f.Changed(), g.Changed())
	if got && err != nil {
		c.Fail(key, "%s: true together with error %v", what, err)
	}
	if err == nil && got != want {
		c.Fail(key, "%s: VerifyDERCSRSign says %v, the independent verifier %v", what, got, want)
	}
	if err == nil && obj != want {
		c.Fail(key, "%s: VerifyCSRSign says %v, the independent verifier %v", what, obj, want)
	}
	if err != nil && want {
		// refusing to parse is only right for what is not a valid request
		return false
	}
	return got
}

func c20Bits(c *mon.Case) {
	d, _ := anyKey(c)
	id := anyID(c)
	if len(id) > 300 {
		id = id[:300]
	}
	var der []byte
	if c.IntN(2) == 0 {
		der, _ = madeReq(c, d, id)
	} else {
		var err error
		if der, err = cert.CreateCertificateRequest(anyReqTemplate(c), gmPub(ref.SM2.MulG(d)), gmPriv(d), id); err != nil {
			c.Fail("create", "%v", err)
		}
	}
	c.Note("genuine", der)
	c.Note("id", id)
	c.Check(c20Judge(c, der, id, "genuine", "a genuine request"), "genuine", "a genuine request does not verify")
	c.Ev("genuine")
	c.Distinct(der)
	flip := func(bit int) {
		m := clone(der)
		m[bit/8] ^= 1 << (bit % 8)
		var got bool
		var err error
		_, panicked := mon.Panics(func() { got, err = cert.VerifyDERCSRSign(m, id) })
		if panicked {
			c.Note("forged", m)
			c.Fail("panic", "verification panicked with bit %d of byte %d changed", bit%8, bit/8)
		}
		if got {
			c.Note("forged", m)
			c.Fail("bit-accepted", "the request still verifies with bit %d of byte %d changed (err %v)", bit%8, bit/8, err)
		}
		c.Ev("forged")
	}
	n := len(der) * 8
	if c.Thorough() {
		for i := 0; i < n; i++ {
			flip(i)
		}
		return
	}
	// the region behind the signed part is small and goes completely
	p, err := readReq(der)
	if err != nil {
		c.Fail("structure", "%v", err)
	}
	tail := len(der) - len(p.sig) - len(p.outerAlg) - 4
	for i := tail * 8; i < n; i += 1 + c.IntN(5) {
		flip(i)
	}
	for i := 0; i < 80; i++ {
		flip(c.IntN(n))
	}
}

func c20Foreign(c *mon.Case) {
	d, _ := anyKey(c)
	id := anyID(c)
	der, _ := madeReq(c, d, id)
	c.Check(c20Judge(c, der, id, "genuine", "an independently made request"), "genuine", "an independently made request does not verify")
	c.Ev("genuine")
	c.Distinct(der, id)
	c.Sample("independent request of %d bytes, id of %d bytes: verifies", len(der), len(id))
}

func c20Substitute(c *mon.Case) {
	d, _ := anyKey(c)
	id := anyID(c)
	der, pt := madeReq(c, d, id)
	p, err := readReq(der)
	if err != nil {
		c.Fail("structure", "%v", err)
	}
	r, s, _ := ref.ParseSig(p.sig)
	es := append([]elem(nil), p.tbsElems...)
	d2 := keyOf(c, "rand")
	pt2 := ref.SM2.MulG(d2)
	rebuilt := func(es []elem, sig []byte) []byte { return assemble(ref.TLV(0x30, joinElems(es)), sm2SigAlg, sig) }
	type forgery struct {
		what string
		der  []byte
	}
	with := func(i int, b []byte) []elem {
		x := append([]elem(nil), es...)
		x[i] = elem{full: b}
		return x
	}
	neg := ref.SM2.Neg(pt)
	other, _ := madeReq(c, d, id)
	po, _ := readReq(other)
	fs := []forgery{
		{"another key", rebuilt(with(2, spkiOf(pt2)), p.sig)},
		{"the negated key", rebuilt(with(2, spkiOf(neg)), p.sig)},
		{"another subject", rebuilt(with(1, rawName(pkix.Name{CommonName: "evil"})), p.sig)},
		{"no attributes element", rebuilt(es[:3], p.sig)},
		{"another version", rebuilt(with(0, []byte{2, 1, 1}), p.sig)},
		{"swapped r and s", assemble(p.tbs, sm2SigAlg, ref.SigDER(s, r))},
		{"r + n", assemble(p.tbs, sm2SigAlg, ref.SigDER(new(big.Int).Add(r, bigN), s))},
		{"s + n", assemble(p.tbs, sm2SigAlg, ref.SigDER(r, new(big.Int).Add(s, bigN)))},
		{"n - s", assemble(p.tbs, sm2SigAlg, ref.SigDER(r, new(big.Int).Sub(bigN, s)))},
		{"negative s", assemble(p.tbs, sm2SigAlg, ref.SigDER(r, new(big.Int).Sub(s, bigN)))},
		{"zero r", assemble(p.tbs, sm2SigAlg, ref.SigDER(num(0), s))},
		{"zero s", assemble(p.tbs, sm2SigAlg, ref.SigDER(r, num(0)))},
		{"empty signature", assemble(p.tbs, sm2SigAlg, nil)},
		{"trailing byte in the signature", assemble(p.tbs, sm2SigAlg, append(clone(p.sig), 0))},
		{"truncated signature", assemble(p.tbs, sm2SigAlg, p.sig[:len(p.sig)-1])},
		{"raw signature", assemble(p.tbs, sm2SigAlg, append(ref.B32(r), ref.B32(s)...))},
		{"signature of another request", assemble(p.tbs, sm2SigAlg, po.sig)},
		{"signature by another key", resigned(c, p.tbs, pt, d2, id)},
		{"signature over the subject only", resignedOver(c, p.tbs, p.subject, d, id)},
		{"signature over the content without its header", resignedOver(c, p.tbs, joinElems(es), d, id)},
		{"signature over the whole request", resignedOver(c, p.tbs, der, d, id)},
		{"signature under another id", resignedID(c, p.tbs, d, append(clone(id), 'x'))},
		{"signature without Z", resignedRaw(c, p.tbs, d)},
	}
	order := c.Perm(len(fs))
	for _, i := range order[:8] {
		f := fs[i]
		if bytes.Equal(f.der, der) {
			continue
		}
		if c20Judge(c, f.der, id, "substituted", f.what) {
			c.Fail("forged-accepted", "%s: the forged request verifies", f.what)
		}
		c.Ev("forged")
		c.Ev("forged: " + f.what)
	}
	c.Distinct(der)
}

// resigned signs tbs with d2 while Z is computed for the embedded key.
func resigned(c *mon.Case, tbs []byte, pt ref.Pt, d2 *big.Int, id []byte) []byte {
	e := ref.SM2.E(pt, id, tbs)
	return withE(c, tbs, d2, e)
}

func resignedOver(c *mon.Case, tbs, over []byte, d *big.Int, id []byte) []byte {
	return withE(c, tbs, d, ref.SM2.E(ref.SM2.MulG(d), id, over))
}

func resignedID(c *mon.Case, tbs []byte, d *big.Int, id []byte) []byte {
	return withE(c, tbs, d, ref.SM2.E(ref.SM2.MulG(d), id, tbs))
}

func resignedRaw(c *mon.Case, tbs []byte, d *big.Int) []byte {
	h := ref.SM3(tbs)
	return withE(c, tbs, d, new(big.Int).SetBytes(h))
}

func withE(c *mon.Case, tbs []byte, d, e *big.Int) []byte {
	for {
		if r, s, ok := ref.SM2.SignK(d, e, scalar(c)); ok {
			return assemble(tbs, sm2SigAlg, ref.SigDER(r, s))
		}
	}
}

func c20IDs(c *mon.Case) {
	d, _ := anyKey(c)
	id := anyID(c)
	if c.IntN(2) == 0 {
		id = edgeID(c)
	}
	der, _ := madeReq(c, d, id)
	c.Check(c20Judge(c, der, id, "genuine", "a genuine request"), "genuine", "a genuine request does not verify")
	c.Ev("genuine")
	var alts [][]byte
	eff := id
	if id == nil {
		eff = ref.DefaultID
	}
	for i := 0; i < 6; i++ {
		if len(eff) > 0 {
			m := clone(eff)
			m[c.IntN(len(m))] ^= 1 << c.IntN(8)
			alts = append(alts, m)
		}
	}
	alts = append(alts, append(clone(eff), 0), append([]byte{0}, eff...), c.Bytes(16), ref.DefaultID, nil, []byte{}, c.Bytes(8192), c.Bytes(8192+c.IntN(60000)))
	if len(eff) > 0 {
		alts = append(alts, eff[:len(eff)-1], eff[1:])
	}
	// an id whose bit length is congruent modulo 2^16
	alts = append(alts, append(clone(eff), c.Bytes(8192)...))
	rel := relatedIDs(c, id)
	for i := 0; i < 8; i++ {
		alts = append(alts, rel[c.IntN(len(rel))])
	}
	for _, a := range alts {
		ae := a
		if a == nil {
			ae = ref.DefaultID
		}
		if bytes.Equal(ae, eff) {
			c.Check(c20Judge(c, der, a, "genuine", "the same id"), "genuine", "the same id written differently does not verify")
			continue
		}
		if c20Judge(c, der, a, "id", "another id") {
			c.Fail("id-accepted", "the request verifies under another id")
		}
		c.Ev("forged")
	}
	c.Distinct(der, id)
}

// c20Objects verifies request objects whose fields were altered.
func c20Objects(c *mon.Case) {
	d, _ := anyKey(c)
	id := anyID(c)
	der, pt := madeReq(c, d, id)
	q, err := cert.ParseCertificateRequest(der)
	if err != nil {
		c.Fail("parse", "%v", err)
	}
	c.Check(cert.VerifyCSRSign(q, id), "genuine", "a genuine request object does not verify")
	c.Ev("genuine")
	cv := sm2.GetSm2P256V1()
	alter := []struct {
		what string
		f    func(q *x509.CertificateRequest)
	}{
		{"nil key", func(q *x509.CertificateRequest) { q.PublicKey = nil }},
		{"typed nil key", func(q *x509.CertificateRequest) { q.PublicKey = (*sm2.PublicKey)(nil) }},
		{"ecdsa key", func(q *x509.CertificateRequest) { q.PublicKey = &stdKey().PublicKey }},
		{"nil ecdsa key", func(q *x509.CertificateRequest) { q.PublicKey = (*ecdsa.PublicKey)(nil) }},
		{"rsa key", func(q *x509.CertificateRequest) { q.PublicKey = &rsa.PublicKey{N: num(15), E: 3} }},
		{"string key", func(q *x509.CertificateRequest) { q.PublicKey = "key" }},
		{"key by value", func(q *x509.CertificateRequest) { q.PublicKey = sm2.PublicKey{} }},
		{"private key", func(q *x509.CertificateRequest) { q.PublicKey = gmPriv(d) }},
		{"off-curve key", func(q *x509.CertificateRequest) {
			q.PublicKey = &sm2.PublicKey{X: add(pt.X, 1), Y: cp(pt.Y), Curve: cv}
		}},
		{"key at infinity", func(q *x509.CertificateRequest) { q.PublicKey = &sm2.PublicKey{X: num(0), Y: num(0), Curve: cv} }},
		{"unreduced key", func(q *x509.CertificateRequest) {
			q.PublicKey = &sm2.PublicKey{X: new(big.Int).Add(pt.X, bigP), Y: cp(pt.Y), Curve: cv}
		}},
		{"negated key", func(q *x509.CertificateRequest) { q.PublicKey = gmPub(ref.SM2.Neg(pt)) }},
		{"nil signature", func(q *x509.CertificateRequest) { q.Signature = nil }},
		{"random signature", func(q *x509.CertificateRequest) { q.Signature = c.Bytes(70) }},
		{"empty content", func(q *x509.CertificateRequest) { q.RawTBSCertificateRequest = nil }},
		{"other content", func(q *x509.CertificateRequest) {
			q.RawTBSCertificateRequest = append(clone(q.RawTBSCertificateRequest), 0)
		}},
		{"whole request as content", func(q *x509.CertificateRequest) { q.RawTBSCertificateRequest = q.Raw }},
	}
	saved := *q
	for _, a := range alter {
		q2 := &x509.CertificateRequest{}
		if c.IntN(2) == 0 {
			q2 = q // an object that verified a moment ago
		}
		*q2 = saved
		a.f(q2)
		c.NoPanic("panic-"+strings.ReplaceAll(a.what, " ", "-"), func() {
			if cert.VerifyCSRSign(q2, id) {
				c.Fail("object-accepted", "a request object with %s verifies", a.what)
			}
		})
		*q2 = saved
		c.Check(cert.VerifyCSRSign(q2, id), "object-restored", "a request object whose altered field (%s) was restored does not verify", a.what)
		c.Ev("objects")
	}
}

// ---- C21 ----

type issueIn struct {
	t, parent *x509.Certificate
	csr       *x509.CertificateRequest
	subjPt    ref.Pt
	ca        *big.Int
	id        []byte
}

func reqFor(c *mon.Case, pt ref.Pt, d *big.Int) *x509.CertificateRequest {
	if d == nil || c.IntN(3) == 0 {
		return &x509.CertificateRequest{RawSubjectPublicKeyInfo: spkiOf(pt)}
	}
	der, _ := madeReq(c, d, nil)
	q, err := cert.ParseCertificateRequest(der)
	if err != nil {
		c.Fail("parse-request", "an independently made request does not parse: %v", err)
	}
	return q
}

func anyParent(c *mon.Case) *x509.Certificate {
	p := &x509.Certificate{Subject: anyName(c)}
	if c.IntN(2) == 0 {
		p.SubjectKeyId = c.Bytes(1 + c.IntN(30))
	}
	if c.IntN(3) == 0 {
		p.RawSubject = rawName(anyName(c))
	}
	if c.IntN(3) == 0 {
		// fields that must not leak into the issued certificate
		p.KeyUsage, p.DNSNames, p.ExtraExtensions = x509.KeyUsageCertSign, []string{"parent.example"}, []pkix.Extension{{Id: asn1.ObjectIdentifier{1, 2, 3, 4, 5}, Value: []byte{5, 0}}}
		p.AuthorityKeyId, p.NotBefore, p.SerialNumber = c.Bytes(20), time.Unix(1, 0), num(99)
	}
	return p
}

func c21Issue(c *mon.Case) {
	in := issueIn{t: anyTemplate(c), parent: anyParent(c), id: anyID(c)}
	if c.IntN(6) == 0 {
		in.parent = in.t // self-signed
		c.Ev("self-issued")
	} else if c.IntN(6) == 0 {
		in.parent.RawSubject = nil
		in.parent.Subject = in.t.Subject // same name, different object
	}
	in.ca, _ = anyKey(c)
	d, _ := anyKey(c)
	in.subjPt = ref.SM2.MulG(d)
	in.csr = reqFor(c, in.subjPt, d)
	c21One(c, &in)
}

// c21Reused issues several certificates with the same template, parent,
// request, information and key structures, some of whose values change.
func c21Reused(c *mon.Case) {
	var in issueIn
	for i := 0; i < 4; i++ {
		if i == 0 || c.IntN(2) == 0 {
			in.t = anyTemplate(c)
		} else if c.IntN(2) == 0 {
			u := *in.t
			u.SerialNumber, u.NotAfter, u.KeyUsage = anySerial(c), anyTime(c, false), x509.KeyUsage(c.IntN(512))
			u.DNSNames, u.EmailAddresses, u.IPAddresses, u.URIs = anySANs(c)
			in.t = &u
		}
		if i == 0 || c.IntN(2) == 0 {
			in.parent = anyParent(c)
		} else {
			u := *in.parent
			u.SubjectKeyId = c.Bytes(20)
			in.parent = &u
		}
		if i == 0 || c.IntN(2) == 0 {
			d, _ := anyKey(c)
			in.subjPt = ref.SM2.MulG(d)
			in.csr = reqFor(c, in.subjPt, d)
		}
		if i == 0 || c.IntN(2) == 0 {
			in.ca, _ = anyKey(c)
		}
		if i == 0 || c.IntN(2) == 0 {
			in.id = anyID(c)
		}
		c21One(c, &in)
	}
}

// expectedExts asks the standard library which extensions the template
// means; nil when it refuses the template.
func expectedExts(t, parent *x509.Certificate) ([]extPart, error) {
	st := *t
	st.Policies = nil
	for _, o := range t.PolicyIdentifiers {
		var u []uint64
		for _, x := range o {
			u = append(u, uint64(x))
		}
		oid, err := x509.OIDFromInts(u)
		if err != nil {
			return nil, err
		}
		st.Policies = append(st.Policies, oid)
	}
	if st.SerialNumber.Sign() <= 0 {
		st.SerialNumber = num(1)
	}
	sp := *parent
	sp.PublicKey = nil
	if parent == t {
		sp = st
	}
	noSKI := len(t.SubjectKeyId) == 0 && !hasExt(t.ExtraExtensions, "2.5.29.14")
	der, err := x509.CreateCertificate(&fixedRand{}, &st, &sp, &stdKey().PublicKey, stdKey())
	if err != nil {
		return nil, err
	}
	p, err := readCert(der)
	if err != nil {
		return nil, err
	}
	var out []extPart
	for _, e := range p.exts {
		if e.oid == "2.5.29.14" && noSKI {
			continue // derived from the key there
		}
		out = append(out, e)
	}
	return out, nil
}

func hasExt(l []pkix.Extension, oid string) bool {
	for _, e := range l {
		if e.Id.String() == oid {
			return true
		}
	}
	return false
}

func c21One(c *mon.Case, in *issueIn) []byte {
	self := in.parent == in.t
	in.t, in.csr = slotObj(c, "template", in.t), slotObj(c, "csr", in.csr)
	if self {
		in.parent = in.t
	} else {
		in.parent = slotObj(c, "parent", in.parent)
	}
	roomy(in.t)
	if !self {
		roomy(in.parent)
	}
	roomy(in.csr)
	c.Note("template", dumpNoCap(*in.t))
	c.Note("parent", dumpNoCap(*in.parent))
	c.Note("id", in.id)
	bt, bp, bq := dump(in.t), dump(in.parent), dump(in.csr)
	tbs, err := cert.CreateCertificateInfo(in.t, in.parent, in.csr)
	if err != nil {
		c.Fail("error", "a valid template was refused: %v", err)
	}
	check := func(when string) {
		if a := dump(in.t); a != bt {
			c.Fail("template-modified", "%s changed the template: %s", when, firstDiff(bt, a))
		}
		if a := dump(in.parent); a != bp {
			c.Fail("parent-modified", "%s changed the parent: %s", when, firstDiff(bp, a))
		}
		if a := dump(in.csr); a != bq {
			c.Fail("request-modified", "%s changed the request: %s", when, firstDiff(bq, a))
		}
	}
	check("CreateCertificateInfo")
	tbs = slotObj(c, "info", tbs)
	pri, caPt := slotPriv(c, "ca", in.ca), ref.SM2.MulG(in.ca)
	bi, bk := dump(tbs), dump(pri.D)
	idf := c.FreezeAs("id", in.id)
	der, err := cert.IssueCertificateBySoftCAKey(tbs, pri, idf.B)
	if err != nil {
		c.Fail("issue-error", "issuing failed: %v", err)
	}
	c.Note("der", der)
	check("IssueCertificateBySoftCAKey")
	if a := dump(tbs); a != bi {
		c.Fail("info-modified", "issuing changed the certificate information: %s", firstDiff(bi, a))
	}
	c.Check(dump(pri.D) == bk && idf.Changed() == "", "key-modified", "issuing changed the key or id")
	p, err := readCert(der)
	if err != nil {
		c.Fail("structure", "the certificate is not well-formed DER: %v", err)
	}
	same(c, "signed-part", p.tbs, tbs.Raw, "signed part against the certificate information")
	// content
	c.Check(p.version == 2, "version", "version %d", p.version)
	c.Check(p.serial.Cmp(in.t.SerialNumber) == 0, "serial", "serial %v, want %v", p.serial, in.t.SerialNumber)
	checkSigAlg(c, p.innerAlg)
	checkSigAlg(c, p.outerAlg)
	issuer, subject := in.parent.RawSubject, in.t.RawSubject
	if len(issuer) == 0 {
		issuer = rawName(in.parent.Subject)
	}
	if len(subject) == 0 {
		subject = rawName(in.t.Subject)
	}
	same(c, "issuer", p.issuer, issuer, "issuer")
	same(c, "subject", p.subject, subject, "subject")
	same(c, "validity", p.validity, validityDER(in.t.NotBefore, in.t.NotAfter), "validity")
	same(c, "spki", p.spki, in.csr.RawSubjectPublicKeyInfo, "subject public key info")
	same(c, "spki", p.spki, spkiOf(in.subjPt), "subject public key info")
	c.Check(!p.uniqueIDs, "unique-ids", "unexpected unique identifiers")
	exp, serr := expectedExts(in.t, in.parent)
	if serr == nil {
		if g, w := extListString(p.exts), extListString(exp); g != w {
			c.Fail("extensions", "extensions:\n%s\nwant\n%s", g, w)
		}
		c.Check(p.hasExts == (len(exp) > 0), "extensions-presence", "extensions field present: %v, with %d extensions", p.hasExts, len(exp))
		c.Ev("std-agrees")
	} else {
		c.Ev("std-refuses")
	}
	checkCriticality(c, in.t, p, len(subject) == 2)
	// signature
	r, s, err := ref.ParseSig(p.sig)
	if err != nil {
		c.Fail("signature", "the signature is not DER: %x", p.sig)
	}
	c.Check(ref.SM2.Verify(caPt, in.id, p.tbs, r, s), "signature", "the independent verifier rejects the certificate's signature")
	// external signer: any signature bytes are embedded as they are, over the same signed part
	ext := c.Bytes(c.IntN(100))
	if c.IntN(2) == 0 {
		if rr, ss, ok := ref.SM2.SignK(in.ca, ref.SM2.E(caPt, in.id, tbs.Raw), scalar(c)); ok {
			ext = ref.SigDER(rr, ss)
		}
	}
	ef := c.Freeze(ext)
	der2, err := cert.CreateCertificate(tbs, ef.B)
	if err != nil {
		c.Fail("external-error", "CreateCertificate: %v", err)
	}
	c.Check(ef.Changed() == "" && !ef.Overlaps(der2), "external-modified", "CreateCertificate modified or kept the signature: %s", ef.Changed())
	same(c, "external", der2, assemble(p.tbs, p.outerAlg, ext), "certificate from an external signature")
	if a := dump(tbs); a != bi {
		c.Fail("info-modified", "CreateCertificate changed the certificate information: %s", firstDiff(bi, a))
	}
	c.Ev("external")
	// the same information issued again, under another key or id or both
	if c.IntN(3) == 0 {
		ca2, id2 := in.ca, in.id
		if c.IntN(2) == 0 {
			ca2, _ = anyKey(c)
		}
		if c.IntN(2) == 0 {
			id2 = anyID(c)
		}
		der3, err := cert.IssueCertificateBySoftCAKey(tbs, slotPriv(c, "ca", ca2), c.FreezeAs("id", id2).B)
		if err != nil {
			c.Fail("again-error", "issuing again failed: %v", err)
		}
		p3, err := readCert(der3)
		if err != nil {
			c.Fail("structure", "the certificate issued again is not well-formed DER: %v", err)
		}
		same(c, "again-signed-part", p3.tbs, p.tbs, "signed part of the certificate issued again")
		r3, s3, err := ref.ParseSig(p3.sig)
		if err != nil {
			c.Fail("again-signature", "the signature issued again is not DER: %x", p3.sig)
		}
		c.Check(ref.SM2.Verify(ref.SM2.MulG(ca2), id2, p3.tbs, r3, s3), "again-signature", "the independent verifier rejects the certificate issued again (same key %v, same id %v)", ca2 == in.ca, bytes.Equal(id2, in.id))
		c.Ev("issued-again")
	}
	// parse back
	x, err := cert.ParseCertificate(der)
	if err != nil {
		c.Fail("parse", "the library does not parse its own certificate: %v", err)
	}
	c.Ev("parsed")
	c21Parsed(c, x, in, p, der)
	c.Check(sm2.Verify(gmPub(caPt), in.id, x.RawTBSCertificate, x.Signature), "verify", "the library rejects its own certificate's signature")
	// the standard library's view
	if serr == nil && in.t.SerialNumber.Sign() > 0 {
		sd, err := toStd(der, false)
		if err != nil {
			c.Fail("structure", "%v", err)
		}
		sx, err := x509.ParseCertificate(sd)
		if err != nil {
			c.Ev("std-parse-refused")
		} else {
			if d := diffMaps(semantics(x), semantics(sx)); d != "" {
				c.Fail("std-view", "parsed here and by the standard library: %s", d)
			}
			if d := sameName(x.Subject, sx.Subject); d != "" {
				c.Fail("std-view", "subject: %s", d)
			}
			if d := sameName(x.Issuer, sx.Issuer); d != "" {
				c.Fail("std-view", "issuer: %s", d)
			}
			c.Check(x.NotBefore.Equal(sx.NotBefore) && x.NotAfter.Equal(sx.NotAfter), "std-view", "validity: %v %v, want %v %v", x.NotBefore, x.NotAfter, sx.NotBefore, sx.NotAfter)
			c.Ev("std-view")
		}
	}
	c.Ev("issued")
	c.Distinct(der)
	c.Sample("subject %q, %d bytes, %d extensions", in.t.Subject.String(), len(der), len(p.exts))
	return der
}

func validityDER(a, b time.Time) []byte {
	f := func(t time.Time) []byte {
		t = t.UTC()
		if t.Year() >= 1950 && t.Year() < 2050 {
			return ref.TLV(0x17, []byte(t.Format("060102150405Z")))
		}
		return ref.TLV(0x18, []byte(t.Format("20060102150405Z")))
	}
	return ref.TLV(0x30, f(a), f(b))
}

// checkCriticality applies RFC 5280's rules to derived extensions.
func checkCriticality(c *mon.Case, t *x509.Certificate, p *certParts, emptySubject bool) {
	for _, e := range p.exts {
		if hasExt(t.ExtraExtensions, e.oid) {
			continue
		}
		switch e.oid {
		case "2.5.29.15", "2.5.29.19":
			c.Check(e.critical, "criticality", "%s is not critical", e.oid)
		case "2.5.29.14", "2.5.29.35", "1.3.6.1.5.5.7.1.1":
			c.Check(!e.critical, "criticality", "%s is critical", e.oid)
		case "2.5.29.17":
			c.Check(e.critical == emptySubject, "criticality", "subject alternative name critical=%v with empty subject=%v", e.critical, emptySubject)
		}
	}
}

func c21Parsed(c *mon.Case, x *x509.Certificate, in *issueIn, p *certParts, der []byte) {
	same(c, "parsed-raw", x.Raw, der, "Raw")
	same(c, "parsed-raw", x.RawTBSCertificate, p.tbs, "RawTBSCertificate")
	same(c, "parsed-raw", x.RawSubject, p.subject, "RawSubject")
	same(c, "parsed-raw", x.RawIssuer, p.issuer, "RawIssuer")
	same(c, "parsed-raw", x.RawSubjectPublicKeyInfo, p.spki, "RawSubjectPublicKeyInfo")
	same(c, "parsed-raw", x.Signature, p.sig, "Signature")
	c.Check(x.SerialNumber.Cmp(in.t.SerialNumber) == 0, "parsed-serial", "serial %v, want %v", x.SerialNumber, in.t.SerialNumber)
	c.Check(x.Version == 3, "parsed-version", "version %d", x.Version)
	sec := func(t time.Time) time.Time { return t.UTC().Truncate(time.Second) }
	c.Check(x.NotBefore.Equal(sec(in.t.NotBefore)), "parsed-validity", "not before %v, want %v", x.NotBefore, in.t.NotBefore)
	c.Check(x.NotAfter.Equal(sec(in.t.NotAfter)), "parsed-validity", "not after %v, want %v", x.NotAfter, in.t.NotAfter)
	gp, ok := x.PublicKey.(*sm2.PublicKey)
	c.Check(ok && ref.SM2.Eq(ptOf(gp), in.subjPt), "parsed-key", "parsed public key differs")
	if g, w := extListString(pkixExts(x.Extensions)), extListString(p.exts); g != w {
		c.Fail("parsed-extensions", "parsed extensions\n%s\nwant\n%s", g, w)
	}
	c21Values(c, x, in)
}

// c21Values compares parsed fields with the template, field by field,
// leaving out those an explicit extension overrides.
func c21Values(c *mon.Case, x *x509.Certificate, in *issueIn) {
	t := in.t
	got := semantics(x)
	over := func(oid string) bool { return hasExt(t.ExtraExtensions, oid) }
	want := func(f, v string) {
		if got[f] != v {
			c.Fail("parsed-"+f, "%s: parsed %s, template says %s", f, got[f], v)
		}
	}
	if !over("2.5.29.15") {
		want("keyUsage", fmt.Sprint(int(t.KeyUsage)))
	}
	if !over("2.5.29.37") {
		want("extKeyUsage", fmt.Sprint(append([]x509.ExtKeyUsage{}, t.ExtKeyUsage...)))
		want("unknownExtKeyUsage", fmt.Sprint(t.UnknownExtKeyUsage))
	}
	if !over("2.5.29.19") {
		if !t.BasicConstraintsValid {
			want("basicConstraints", "false false 0 false")
		} else {
			n := t.MaxPathLen
			if n == 0 && !t.MaxPathLenZero {
				n = -1
			}
			want("basicConstraints", fmt.Sprintf("true %v %d %v", t.IsCA, n, n == 0))
		}
	}
	if !over("2.5.29.14") {
		want("subjectKeyId", fmt.Sprintf("%x", t.SubjectKeyId))
	}
	if !over("2.5.29.35") {
		aki := t.AuthorityKeyId
		if !bytes.Equal(x.RawIssuer, x.RawSubject) && len(in.parent.SubjectKeyId) > 0 {
			aki = in.parent.SubjectKeyId
		}
		want("authorityKeyId", fmt.Sprintf("%x", aki))
	}
	if !over("1.3.6.1.5.5.7.1.1") {
		want("ocsp", fmt.Sprintf("%q", t.OCSPServer))
		want("issuingURL", fmt.Sprintf("%q", t.IssuingCertificateURL))
	}
	if !over("2.5.29.17") {
		want("dns", fmt.Sprintf("%q", t.DNSNames))
		want("email", fmt.Sprintf("%q", t.EmailAddresses))
		want("ip", ipList(t.IPAddresses))
		want("uri", uriList(t.URIs))
	}
	if !over("2.5.29.32") {
		want("policies", fmt.Sprint(t.PolicyIdentifiers))
	}
	if !over("2.5.29.30") {
		want("permittedDNS", fmt.Sprintf("%q", t.PermittedDNSDomains))
		want("excludedDNS", fmt.Sprintf("%q", t.ExcludedDNSDomains))
		want("permittedEmail", fmt.Sprintf("%q", t.PermittedEmailAddresses))
		want("excludedEmail", fmt.Sprintf("%q", t.ExcludedEmailAddresses))
		want("permittedURI", fmt.Sprintf("%q", t.PermittedURIDomains))
		want("excludedURI", fmt.Sprintf("%q", t.ExcludedURIDomains))
		want("permittedIP", netList(t.PermittedIPRanges))
		want("excludedIP", netList(t.ExcludedIPRanges))
		if len(t.PermittedDNSDomains)+len(t.ExcludedDNSDomains)+len(t.PermittedEmailAddresses)+len(t.ExcludedEmailAddresses)+
			len(t.PermittedURIDomains)+len(t.ExcludedURIDomains)+len(t.PermittedIPRanges)+len(t.ExcludedIPRanges) > 0 {
			want("ncCritical", fmt.Sprint(t.PermittedDNSDomainsCritical))
		}
	}
	if !over("2.5.29.31") {
		want("crl", fmt.Sprintf("%q", t.CRLDistributionPoints))
	}
}

// c21Fields issues from templates with one or two fields set, so that every
// field is seen alone and in pairs.
func c21Fields(c *mon.Case) {
	full := anyTemplate(c)
	for tries := 0; tries < 3 && len(full.ExtraExtensions) == 0; tries++ {
		full.ExtraExtensions = anyExtras(c, true)
	}
	t := &x509.Certificate{SerialNumber: num(int64(c.Idx + 1)), Subject: pkix.Name{CommonName: "field"}, NotBefore: time.Unix(1600000000, 0), NotAfter: time.Unix(1900000000, 0)}
	if c.IntN(4) == 0 {
		t.Subject = pkix.Name{}
	}
	sans := func() { t.DNSNames, t.EmailAddresses, t.IPAddresses, t.URIs = anySANs(c) }
	one := func(k int) {
		switch k % 16 {
		case 0:
			t.KeyUsage = x509.KeyUsage(c.Idx / 16 % 512)
		case 1:
			t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsage(c.Idx / 16 % 14)}
		case 2:
			t.UnknownExtKeyUsage = []asn1.ObjectIdentifier{append(asn1.ObjectIdentifier{1, 3, 99}, anyOID(c)...)}
		case 3:
			t.BasicConstraintsValid, t.IsCA = true, true
			t.MaxPathLen, t.MaxPathLenZero = []int{-1, 0, 1, 127, 128, 1 << 20}[c.IntN(6)], c.IntN(2) == 0
		case 4:
			t.BasicConstraintsValid = true
		case 5:
			t.SubjectKeyId = c.Bytes(1 + c.IntN(130))
		case 6:
			t.AuthorityKeyId = c.Bytes(1 + c.IntN(130))
		case 7:
			t.OCSPServer = []string{anyURLString(c)}
		case 8:
			t.IssuingCertificateURL = []string{anyURLString(c), anyURLString(c)}
		case 9:
			sans()
		case 10:
			t.PolicyIdentifiers = []asn1.ObjectIdentifier{anyOID(c), anyOID(c)}
		case 11:
			switch c.IntN(4) {
			case 0:
				t.PermittedDNSDomains = []string{constraintDomain(c), constraintDomain(c)}
			case 1:
				t.PermittedIPRanges = []*net.IPNet{anyIPNet(c)}
			case 2:
				t.PermittedEmailAddresses = []string{constraintEmail(c)}
			case 3:
				t.PermittedURIDomains = []string{uriDomain(c)}
			}
			t.PermittedDNSDomainsCritical = c.IntN(2) == 0
		case 12:
			switch c.IntN(4) {
			case 0:
				t.ExcludedDNSDomains = []string{constraintDomain(c)}
			case 1:
				t.ExcludedIPRanges = []*net.IPNet{anyIPNet(c), anyIPNet(c)}
			case 2:
				t.ExcludedEmailAddresses = []string{constraintEmail(c), constraintEmail(c)}
			case 3:
				t.ExcludedURIDomains = []string{uriDomain(c)}
			}
			t.PermittedDNSDomainsCritical = c.IntN(2) == 0
		case 13:
			t.CRLDistributionPoints = []string{anyURLString(c)}
		case 14:
			t.ExtraExtensions = full.ExtraExtensions
		case 15:
			o := overridable[c.IntN(len(overridable))]
			t.ExtraExtensions = []pkix.Extension{{Id: o, Value: validExtValue(c, o)}}
		}
	}
	one(c.Idx)
	if c.IntN(2) == 0 {
		one(c.IntN(16))
	}
	d := keyOf(c, "rand")
	in := issueIn{t: t, parent: anyParent(c), subjPt: ref.SM2.MulG(d), ca: num(int64(2 + c.IntN(1000)))}
	in.csr = reqFor(c, in.subjPt, d)
	c21One(c, &in)
}

// c21Chain runs the documented flow: requests filled into templates, a root,
// an intermediate and a leaf, each issued from the parsed certificate above.
func c21Chain(c *mon.Case) {
	var parent *x509.Certificate
	var parentKey *big.Int
	id := anyID(c)
	for level := 0; level < 3; level++ {
		d, _ := anyKey(c)
		rt := anyReqTemplate(c)
		rt.RawSubject = nil
		if c.IntN(3) == 0 {
			rt.RawSubject = foreignName(c)
		}
		rder, err := cert.CreateCertificateRequest(rt, gmPub(ref.SM2.MulG(d)), gmPriv(d), id)
		if err != nil {
			c.Fail("request", "%v", err)
		}
		q, err := cert.ParseCertificateRequest(rder)
		if err != nil {
			c.Fail("request", "%v", err)
		}
		t := &x509.Certificate{SerialNumber: anySerial(c), NotBefore: anyTime(c, true), NotAfter: anyTime(c, false),
			KeyUsage: x509.KeyUsageCertSign, BasicConstraintsValid: true, IsCA: level < 2, SubjectKeyId: c.Bytes(20)}
		if c.IntN(2) == 0 {
			// a template that was used before, or that a parser made
			t.Subject, t.ExtraExtensions = anyName(c), nil
			if c.IntN(2) == 0 {
				t.RawSubject = rawName(t.Subject)
			}
			t.DNSNames, t.EmailAddresses, t.IPAddresses, t.URIs = anySANs(c)
		}
		before, keep := dump(q), *t
		oldDNS, oldIP, old := t.DNSNames, t.IPAddresses, dump([]any{t.DNSNames, t.EmailAddresses, t.IPAddresses, t.URIs})
		oldEmail, oldURI := t.EmailAddresses, t.URIs
		cert.FillCertificateTemplateByCSR(t, q)
		c.Check(dump(q) == before, "fill-modified", "filling a template changed the request")
		c.Check(dump([]any{oldDNS, oldEmail, oldIP, oldURI}) == old, "fill-old", "filling a template changed the lists it replaced, which others may hold")
		tn, qn := t.Subject, q.Subject
		tn.ExtraNames, qn.ExtraNames = nil, nil // how the rest is carried is the library's affair
		if d := sameName(tn, qn); d != "" {
			c.Fail("fill-subject", "%s", d)
		}
		got := map[string]string{"dns": fmt.Sprintf("%q", t.DNSNames), "email": fmt.Sprintf("%q", t.EmailAddresses), "ip": rawIPList(t.IPAddresses), "uri": uriList(t.URIs)}
		want := map[string]string{"dns": fmt.Sprintf("%q", q.DNSNames), "email": fmt.Sprintf("%q", q.EmailAddresses), "ip": rawIPList(q.IPAddresses), "uri": uriList(q.URIs)}
		if d := diffMaps(got, want); d != "" {
			c.Fail("fill-names", "filling a template from a request: %s", d)
		}
		c.Check(t.SerialNumber == keep.SerialNumber && t.NotBefore.Equal(keep.NotBefore) && t.NotAfter.Equal(keep.NotAfter) && t.KeyUsage == keep.KeyUsage &&
			t.IsCA == keep.IsCA && bytes.Equal(t.SubjectKeyId, keep.SubjectKeyId), "fill-other", "filling a template changed other fields")
		in := issueIn{t: t, parent: parent, csr: q, subjPt: ref.SM2.MulG(d), ca: parentKey, id: id}
		if parent == nil {
			in.parent, in.ca = t, d
		}
		der := c21One(c, &in)
		x, err := cert.ParseCertificate(der)
		if err != nil {
			c.Fail("parse", "%v", err)
		}
		if g, w := attributes(c, x.Subject), attributes(c, q.Subject); g != w {
			c.Fail("fill-issued-subject", "the certificate issued from the filled template names the subject %s, the request %s", g, w)
		}
		c.Ev("filled-subject")
		if parent != nil {
			same(c, "chain-name", x.RawIssuer, parent.RawSubject, "issuer against the parent's subject")
			if len(parent.SubjectKeyId) > 0 && !bytes.Equal(x.RawIssuer, x.RawSubject) {
				same(c, "chain-key-id", x.AuthorityKeyId, parent.SubjectKeyId, "authority key id against the parent's key id")
			}
			pk := parent.PublicKey.(*sm2.PublicKey)
			c.Check(sm2.Verify(pk, id, x.RawTBSCertificate, x.Signature), "chain-signature", "the child does not verify under the parent's parsed key")
			c.Check(!sm2.Verify(x.PublicKey.(*sm2.PublicKey), id, x.RawTBSCertificate, x.Signature) || ref.SM2.Eq(ptOf(pk), ptOf(x.PublicKey.(*sm2.PublicKey))), "chain-signature", "the child verifies under its own key")
		}
		parent, parentKey = x, d
	}
	c.Ev("chains")
}

// attributes lists what a parsed name says, whatever the order.
func attributes(c *mon.Case, n pkix.Name) string {
	var l []string
	for _, a := range n.Names {
		if v, ok := a.Value.(string); ok && v == "" && len(a.Type) == 4 && (a.Type[3] == 3 || a.Type[3] == 5) {
			continue // X.520 has no empty common name or serial number
		}
		l = append(l, fmt.Sprintf("%v=%q", a.Type, fmt.Sprint(a.Value)))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

// foreignName is a name as other software encodes it: any order, several
// attributes of a type, several in one set, types without a field of their own.
func foreignName(c *mon.Case) []byte {
	types := []asn1.ObjectIdentifier{{2, 5, 4, 3}, {2, 5, 4, 5}, {2, 5, 4, 6}, {2, 5, 4, 7}, {2, 5, 4, 8}, {2, 5, 4, 9}, {2, 5, 4, 10}, {2, 5, 4, 11}, {2, 5, 4, 17},
		{2, 5, 4, 4}, {2, 5, 4, 42}, {2, 5, 4, 12}, {1, 2, 840, 113549, 1, 9, 1}, {0, 9, 2342, 19200300, 100, 1, 25}, {0, 9, 2342, 19200300, 100, 1, 1}, {1, 2, 3, 4}}
	var rdns []byte
	for i := c.IntN(6); i > 0; i-- {
		var set [][]byte
		for j := 1 + c.IntN(5)/3; j > 0; j-- {
			tag, s := byte(0x0c), anyStr(c)
			if c.IntN(3) == 0 {
				tag, s = []byte{0x13, 0x16, 0x14}[c.IntN(3)], "Foreign 1"
			}
			set = append(set, ref.TLV(0x30, oidDER(types[c.IntN(len(types))]), ref.TLV(tag, []byte(s))))
		}
		sort.Slice(set, func(a, b int) bool { return bytes.Compare(set[a], set[b]) < 0 })
		rdns = append(rdns, ref.TLV(0x31, set...)...)
	}
	return ref.TLV(0x30, rdns)
}

func c21Refused(c *mon.Case) {
	d := keyOf(c, "rand")
	t := anyTemplate(c)
	parent := anyParent(c)
	csr := &x509.CertificateRequest{RawSubjectPublicKeyInfo: spkiOf(ref.SM2.MulG(d))}
	which := []string{"no serial", "bad key info", "trailing key info", "no key info", "unknown usage", "priv-n-1", "long id", "non-ascii constraint"}[c.Idx%8]
	ca, id := cp(d), []byte(nil)
	issue := false
	switch which {
	case "no serial":
		t.SerialNumber = nil
	case "bad key info":
		csr.RawSubjectPublicKeyInfo = c.Bytes(c.IntN(30))
		if len(csr.RawSubjectPublicKeyInfo) > 0 {
			csr.RawSubjectPublicKeyInfo[0] = 0x31
		}
	case "trailing key info":
		csr.RawSubjectPublicKeyInfo = append(clone(csr.RawSubjectPublicKeyInfo), c.Bytes(1+c.IntN(3))...)
	case "no key info":
		csr.RawSubjectPublicKeyInfo = nil
	case "unknown usage":
		t.ExtraExtensions = nil
		t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsage(500 + c.IntN(1000))}
		if c.IntN(2) == 0 {
			t.ExtKeyUsage[1] = -1
		}
	case "priv-n-1":
		ca, issue = sub(bigN, 1), true
	case "long id":
		id, issue = c.Bytes(8192+c.IntN(100)), true
	case "non-ascii constraint":
		t.ExtraExtensions = nil
		t.PermittedDNSDomains = []string{"例子.cn"}
		if c.IntN(2) == 0 {
			t.PermittedDNSDomains, t.ExcludedURIDomains = nil, []string{"例子.cn"}
		}
		if c.IntN(2) == 0 {
			t.ExcludedEmailAddresses = []string{"ü@example.com"}
		}
	}
	roomy(t)
	before := dump(t)
	c.Note("which", which)
	c.Note("template", dumpNoCap(*t))
	c.NoPanic("panic", func() {
		tbs, err := cert.CreateCertificateInfo(t, parent, csr)
		if !issue {
			c.Check(err != nil && tbs == nil, "accepted", "%s: accepted without an error", which)
			return
		}
		if err != nil {
			c.Fail("error", "a valid template was refused: %v", err)
		}
		der, err := cert.IssueCertificateBySoftCAKey(tbs, &sm2.PrivateKey{D: ca, Curve: sm2.GetSm2P256V1()}, id)
		c.Check(err != nil && der == nil, "accepted", "%s: a certificate was issued without an error", which)
	})
	if a := dump(t); a != before {
		c.Fail("template-modified", "a refused template was changed: %s", firstDiff(before, a))
	}
	c.Ev("refused")
}

// opaqueValue is content for an explicit extension that the library has no
// business looking at.
func opaqueValue(c *mon.Case) []byte {
	switch c.IntN(4) {
	case 0:
		return []byte{}
	case 1:
		return nil
	case 2:
		return []byte{5, 0}
	}
	return c.Bytes(1 + c.IntN(300))
}

// reqExtsOf reads the first value of each extension request attribute.
func reqExtsOf(attrs []byte) ([]extPart, error) {
	l, err := elems(attrs)
	if err != nil {
		return nil, err
	}
	var out []extPart
	for _, a := range l {
		e, err := elems(a.body)
		if err != nil || len(e) != 2 {
			return nil, fmt.Errorf("attribute %x", a.full)
		}
		if !bytes.Equal(e[0].full, oidDER(oidExtReq)) {
			continue
		}
		set, err := elems(e[1].body)
		if err != nil || len(set) == 0 {
			return nil, fmt.Errorf("attribute value %x", e[1].full)
		}
		exts, err := elems(set[0].body)
		if err != nil {
			return nil, err
		}
		for _, x := range exts {
			f, err := elems(x.body)
			if err != nil || len(f) < 2 || len(f) > 3 {
				return nil, fmt.Errorf("extension %x", x.full)
			}
			var o asn1.ObjectIdentifier
			if _, err := asn1.Unmarshal(f[0].full, &o); err != nil {
				return nil, err
			}
			crit := len(f) == 3 && bytes.Equal(f[1].full, []byte{1, 1, 0xff})
			out = append(out, extPart{o.String(), crit, f[len(f)-1].body})
		}
	}
	return out, nil
}

// c19Opaque gives explicit extensions contents of any kind, also under the
// identifiers the library derives extensions for.
func c19Opaque(c *mon.Case) {
	t := &x509.CertificateRequest{Subject: pkix.Name{CommonName: anyStr(c)}}
	t.DNSNames, t.EmailAddresses, t.IPAddresses, t.URIs = anySANs(c)
	add := func(o asn1.ObjectIdentifier) {
		t.ExtraExtensions = append(t.ExtraExtensions, pkix.Extension{Id: o, Critical: c.IntN(2) == 0, Value: opaqueValue(c)})
	}
	if c.IntN(3) > 0 {
		add(oidSANExt)
	}
	for i, o := range overridable {
		if c.IntN(6) == 0 && !o.Equal(oidSANExt) {
			add(overridable[i])
		}
	}
	if c.IntN(2) == 0 {
		add(append(asn1.ObjectIdentifier{1, 3, 98}, anyOID(c)...))
	}
	var l []pkix.Extension
	for _, i := range permOf(c, len(t.ExtraExtensions)) {
		l = append(l, t.ExtraExtensions[i])
	}
	t.ExtraExtensions = l
	if c.IntN(3) == 0 {
		t.Attributes = []pkix.AttributeTypeAndValueSET{{Type: oidExtReq, Value: [][]pkix.AttributeTypeAndValue{{{Type: asn1.ObjectIdentifier{1, 2, 3, 4}, Value: c.Bytes(c.IntN(5))}, {Type: oidSANExt, Value: c.Bytes(c.IntN(5))}}}}}
		if c.IntN(2) == 0 {
			t.Attributes[0].Value[0] = t.Attributes[0].Value[0][:1]
		}
	}
	roomy(t)
	c.Note("template", dumpNoCap(*t))
	before := dump(t)
	d := keyOf(c, "rand")
	der, err := cert.CreateCertificateRequest(t, gmPub(ref.SM2.MulG(d)), gmPriv(d), nil)
	if err != nil {
		c.Fail("error", "a valid template was refused: %v", err)
	}
	c.Note("der", der)
	if a := dump(t); a != before {
		c.Fail("template-modified", "creating a request changed the template: %s", firstDiff(before, a))
	}
	p, err := readReq(der)
	if err != nil {
		c.Fail("structure", "the request is not well-formed DER: %v", err)
	}
	got, err := reqExtsOf(p.attrs)
	if err != nil {
		c.Fail("structure", "the request is not well-formed: %v", err)
	}
	if g, w := extListString(got), extListString(expectedReqExts(t)); g != w {
		c.Fail("extensions", "requested extensions: got\n%s\nwant\n%s", g, w)
	}
	ok, err := cert.VerifyDERCSRSign(der, nil)
	q, perr := cert.ParseCertificateRequest(der)
	c.Check(ok == (perr == nil) && (err == nil) == ok, "verify", "VerifyDERCSRSign: %v %v, parsing: %v", ok, err, perr)
	if perr == nil {
		if g, w := extListString(pkixExts(q.Extensions)), extListString(got); g != w {
			c.Fail("extensions", "parsed extensions:\n%s\nwant\n%s", g, w)
		}
	}
	c.Ev("opaque")
	c.Distinct(der)
}

// c21Opaque does the same for certificates.
func c21Opaque(c *mon.Case) {
	t := anyTemplate(c)
	t.ExtraExtensions = nil
	for _, i := range permOf(c, len(overridable)) {
		if c.IntN(3) == 0 {
			t.ExtraExtensions = append(t.ExtraExtensions, pkix.Extension{Id: overridable[i], Critical: c.IntN(2) == 0, Value: opaqueValue(c)})
		}
	}
	if c.IntN(2) == 0 {
		t.ExtraExtensions = append(t.ExtraExtensions, pkix.Extension{Id: append(asn1.ObjectIdentifier{1, 3, 98}, anyOID(c)...), Critical: c.IntN(2) == 0, Value: opaqueValue(c)})
	}
	roomy(t)
	parent := anyParent(c)
	c.Note("template", dumpNoCap(*t))
	before := dump(t)
	tbs, err := cert.CreateCertificateInfo(t, parent, &x509.CertificateRequest{RawSubjectPublicKeyInfo: spkiOf(poolPoint(c))})
	if err != nil {
		c.Fail("error", "a valid template was refused: %v", err)
	}
	der, err := cert.CreateCertificate(tbs, ref.SigDER(int256(c), int256(c)))
	if err != nil {
		c.Fail("error", "%v", err)
	}
	c.Note("der", der)
	if a := dump(t); a != before {
		c.Fail("template-modified", "creating certificate information changed the template: %s", firstDiff(before, a))
	}
	p, err := readCert(der)
	if err != nil {
		c.Fail("structure", "the certificate is not well-formed DER: %v", err)
	}
	// a template without the explicit extensions tells the derived ones
	plain := *t
	plain.ExtraExtensions = nil
	exp, err := expectedExts(&plain, parent)
	if err != nil {
		c.Ev("std-refuses")
		return
	}
	var want []extPart
	for _, e := range exp {
		if !hasExt(t.ExtraExtensions, e.oid) {
			want = append(want, e)
		}
	}
	for _, e := range t.ExtraExtensions {
		want = append(want, extPart{e.Id.String(), e.Critical, e.Value})
	}
	if g, w := extListString(p.exts), extListString(want); g != w {
		c.Fail("extensions", "extensions:\n%s\nwant\n%s", g, w)
	}
	c.Ev("opaque")
	c.Distinct(der)
}

func permOf(c *mon.Case, n int) []int {
	p := make([]int, n)
	for i := range p {
		j := c.IntN(i + 1)
		p[i], p[j] = p[j], i
	}
	return p
}
