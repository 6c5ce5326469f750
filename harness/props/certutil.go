package props

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"errors"
	"fmt"
	"math/big"
	"net"
	"net/url"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"vharness/mon"
	"vharness/ref"
)

// ---- object identifiers as DER elements ----

var (
	oidSM2Sig     = []byte{6, 8, 0x2a, 0x81, 0x1c, 0xcf, 0x55, 1, 0x83, 0x75}
	oidSM2Curve   = []byte{6, 8, 0x2a, 0x81, 0x1c, 0xcf, 0x55, 1, 0x82, 0x2d}
	oidECKey      = []byte{6, 7, 0x2a, 0x86, 0x48, 0xce, 0x3d, 2, 1}
	oidP256       = []byte{6, 8, 0x2a, 0x86, 0x48, 0xce, 0x3d, 3, 1, 7}
	oidECDSA256   = []byte{6, 8, 0x2a, 0x86, 0x48, 0xce, 0x3d, 4, 3, 2}
	sm2SigAlg     = ref.TLV(0x30, oidSM2Sig)
	ecdsaSigAlg   = ref.TLV(0x30, oidECDSA256)
	oidExtReq     = asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 14}
	oidSANExt     = asn1.ObjectIdentifier{2, 5, 29, 17}
	knownExtArcs  = map[string]bool{"14": true, "15": true, "17": true, "19": true, "30": true, "31": true, "32": true, "35": true, "37": true}
	stdOnlyExts   = map[string]bool{"2.5.29.33": true, "2.5.29.36": true, "2.5.29.54": true}
	p256Once      sync.Once
	p256Key       *ecdsa.PrivateKey
	p256SPKIBytes []byte
)

type fixedRand struct{ n byte }

func (f *fixedRand) Read(p []byte) (int, error) {
	for i := range p {
		f.n = f.n*5 + 113
		p[i] = f.n
	}
	return len(p), nil
}

func stdKey() *ecdsa.PrivateKey {
	p256Once.Do(func() {
		cv := elliptic.P256()
		d := big.NewInt(0x1234567)
		x, y := cv.ScalarBaseMult(d.Bytes())
		p256Key = &ecdsa.PrivateKey{PublicKey: ecdsa.PublicKey{Curve: cv, X: x, Y: y}, D: d}
		b, err := x509.MarshalPKIXPublicKey(&p256Key.PublicKey)
		if err != nil {
			panic(err)
		}
		p256SPKIBytes = b
	})
	return p256Key
}

// elem is one element with its position.
type elem struct {
	tag  byte
	full []byte
	body []byte
}

// elems splits a run of elements.
func elems(b []byte) ([]elem, error) {
	var out []elem
	for len(b) > 0 {
		tag, body, rest, err := ref.ReadTLV(b)
		if err != nil {
			return nil, err
		}
		out = append(out, elem{tag, b[:len(b)-len(rest)], body})
		b = rest
	}
	return out, nil
}

// seqOf opens exactly one SEQUENCE and splits it.
func seqOf(b []byte) ([]elem, error) {
	e, err := elems(b)
	if err != nil || len(e) != 1 || e[0].tag != 0x30 {
		return nil, errors.New("not one SEQUENCE")
	}
	return elems(e[0].body)
}

// certParts is an independent reading of a certificate's structure.
type certParts struct {
	tbs, outerAlg, sig                          []byte
	version                                     int64
	serial                                      *big.Int
	innerAlg, issuer, validity, subject, spki   []byte
	uniqueIDs                                   bool
	exts                                        []extPart
	extsRaw                                     []byte
	hasExts                                     bool
	spkiAlgOID, spkiParams, spkiKey             []byte
	tbsElems                                    []elem
	spkiIdx, innerAlgIdx, subjectIdx, issuerIdx int
}

type extPart struct {
	oid      string
	critical bool
	value    []byte
}

func (e extPart) String() string { return fmt.Sprintf("%s critical=%v %x", e.oid, e.critical, e.value) }

func oidString(der []byte) string {
	var o asn1.ObjectIdentifier
	if rest, err := asn1.Unmarshal(der, &o); err != nil || len(rest) != 0 {
		return fmt.Sprintf("bad-oid-%x", der)
	}
	return o.String()
}

func readExts(b []byte) ([]extPart, error) {
	es, err := seqOf(b)
	if err != nil {
		return nil, err
	}
	var out []extPart
	for _, e := range es {
		f, err := seqOf(e.full)
		if err != nil {
			return nil, err
		}
		var p extPart
		i := 0
		if i >= len(f) || f[i].tag != 6 {
			return nil, errors.New("extension without OID")
		}
		p.oid = oidString(f[i].full)
		i++
		if i < len(f) && f[i].tag == 1 {
			if len(f[i].body) != 1 || f[i].body[0] != 0xff {
				return nil, errors.New("critical is not DER TRUE")
			}
			p.critical = true
			i++
		}
		if i != len(f)-1 || f[i].tag != 4 {
			return nil, errors.New("extension value")
		}
		p.value = f[i].body
		out = append(out, p)
	}
	return out, nil
}

// readCert reads the structure of a well-formed certificate.
func readCert(der []byte) (*certParts, error) {
	top, err := seqOf(der)
	if err != nil || len(top) != 3 || top[0].tag != 0x30 || top[1].tag != 0x30 || top[2].tag != 3 {
		return nil, errors.New("not a Certificate")
	}
	p := &certParts{tbs: top[0].full, outerAlg: top[1].full}
	if len(top[2].body) < 1 || top[2].body[0] != 0 {
		return nil, errors.New("signature BIT STRING")
	}
	p.sig = top[2].body[1:]
	t, err := elems(top[0].body)
	if err != nil {
		return nil, err
	}
	p.tbsElems = t
	i := 0
	next := func(tag byte) []byte {
		if err != nil || i >= len(t) || t[i].tag != tag {
			err = fmt.Errorf("field %d of the TBSCertificate", i)
			return nil
		}
		i++
		return t[i-1].full
	}
	if i < len(t) && t[i].tag == 0xa0 {
		v, e := elems(t[i].body)
		if e != nil || len(v) != 1 || v[0].tag != 2 {
			return nil, errors.New("version")
		}
		x, e := ref.IntFrom(v[0].body)
		if e != nil {
			return nil, e
		}
		p.version = x.Int64()
		i++
	}
	if b := next(2); err == nil {
		if p.serial, _, err = ref.ReadInt(b); err != nil {
			return nil, err
		}
	}
	p.innerAlgIdx = i
	p.innerAlg = next(0x30)
	p.issuerIdx = i
	p.issuer = next(0x30)
	p.validity = next(0x30)
	p.subjectIdx = i
	p.subject = next(0x30)
	p.spkiIdx = i
	p.spki = next(0x30)
	if err != nil {
		return nil, err
	}
	for i < len(t) && (t[i].tag == 0x81 || t[i].tag == 0x82) {
		p.uniqueIDs = true
		i++
	}
	if i < len(t) && t[i].tag == 0xa3 {
		p.hasExts = true
		p.extsRaw = t[i].body
		if p.exts, err = readExts(t[i].body); err != nil {
			return nil, err
		}
		i++
	}
	if i != len(t) {
		return nil, errors.New("trailing elements in the TBSCertificate")
	}
	return p, p.readSPKI(p.spki)
}

func (p *certParts) readSPKI(spki []byte) error {
	s, err := seqOf(spki)
	if err != nil || len(s) != 2 || s[0].tag != 0x30 || s[1].tag != 3 || len(s[1].body) < 1 || s[1].body[0] != 0 {
		return errors.New("subjectPublicKeyInfo")
	}
	a, err := elems(s[0].body)
	if err != nil || len(a) < 1 {
		return errors.New("key algorithm")
	}
	p.spkiAlgOID = a[0].full
	if len(a) > 1 {
		p.spkiParams = a[1].full
	}
	p.spkiKey = s[1].body[1:]
	return nil
}

// reqParts is an independent reading of a request's structure.
type reqParts struct {
	certParts
	attrs    []byte
	hasAttrs bool
}

func readReq(der []byte) (*reqParts, error) {
	top, err := seqOf(der)
	if err != nil || len(top) != 3 || top[0].tag != 0x30 || top[1].tag != 0x30 || top[2].tag != 3 {
		return nil, errors.New("not a CertificationRequest")
	}
	p := &reqParts{}
	p.tbs, p.outerAlg = top[0].full, top[1].full
	if len(top[2].body) < 1 || top[2].body[0] != 0 {
		return nil, errors.New("signature BIT STRING")
	}
	p.sig = top[2].body[1:]
	t, err := elems(top[0].body)
	if err != nil || len(t) < 3 || len(t) > 4 || t[0].tag != 2 || t[1].tag != 0x30 || t[2].tag != 0x30 {
		return nil, errors.New("certificationRequestInfo")
	}
	p.tbsElems = t
	x, err := ref.IntFrom(t[0].body)
	if err != nil {
		return nil, err
	}
	p.version = x.Int64()
	p.subject, p.spki = t[1].full, t[2].full
	if len(t) == 4 {
		if t[3].tag != 0xa0 {
			return nil, errors.New("attributes")
		}
		p.hasAttrs = true
		p.attrs = t[3].body
	}
	return p, p.readSPKI(p.spki)
}

// pointOf decodes an uncompressed point on the SM2 curve.
func pointOf(b []byte) (ref.Pt, bool) {
	if len(b) != 65 || b[0] != 4 {
		return ref.Pt{}, false
	}
	p := ref.Pt{X: new(big.Int).SetBytes(b[1:33]), Y: new(big.Int).SetBytes(b[33:])}
	return p, ref.SM2.On(p)
}

func joinElems(es []elem) []byte {
	var b []byte
	for _, e := range es {
		b = append(b, e.full...)
	}
	return b
}

// swapSigned rewrites algorithm identifiers and key of a certificate or
// request, leaving everything else byte for byte as it was.
func swapSigned(der []byte, req bool, sigAlg, spki []byte) ([]byte, error) {
	var p *certParts
	if req {
		r, err := readReq(der)
		if err != nil {
			return nil, err
		}
		p = &r.certParts
		p.spkiIdx = 2
	} else {
		var err error
		if p, err = readCert(der); err != nil {
			return nil, err
		}
	}
	es := append([]elem(nil), p.tbsElems...)
	es[p.spkiIdx] = elem{full: spki}
	if !req {
		es[p.innerAlgIdx] = elem{full: sigAlg}
	}
	return ref.TLV(0x30, ref.TLV(0x30, joinElems(es)), sigAlg, ref.TLV(3, []byte{0}, p.sig)), nil
}

func toStd(der []byte, req bool) ([]byte, error) {
	stdKey()
	return swapSigned(der, req, ecdsaSigAlg, p256SPKIBytes)
}

func toSM2(der []byte, req bool, spki []byte) ([]byte, error) {
	return swapSigned(der, req, sm2SigAlg, spki)
}

// ---- deep snapshots ----

// dump writes a value with everything reachable from it, including the
// spare capacity of slices.
func dump(v any) string {
	var b strings.Builder
	dumpv(&b, reflect.ValueOf(v), 0)
	return b.String()
}

func dumpv(b *strings.Builder, v reflect.Value, depth int) {
	if depth > 30 {
		b.WriteString("...")
		return
	}
	switch v.Kind() {
	case reflect.Invalid:
		b.WriteString("nil")
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString("&")
		dumpv(b, v.Elem(), depth+1)
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString(v.Elem().Type().String() + ":")
		dumpv(b, v.Elem(), depth+1)
	case reflect.Slice:
		if v.IsNil() {
			b.WriteString("nil[]")
			return
		}
		n, full := v.Len(), v.Slice3(0, v.Cap(), v.Cap())
		if v.Type().Elem().Kind() == reflect.Uint8 {
			x := make([]byte, full.Len())
			for i := range x {
				x[i] = byte(full.Index(i).Uint())
			}
			fmt.Fprintf(b, "[%d]%x", n, x)
			return
		}
		fmt.Fprintf(b, "[%d", n)
		for i := 0; i < full.Len(); i++ {
			b.WriteString(" ")
			dumpv(b, full.Index(i), depth+1)
		}
		b.WriteString("]")
	case reflect.Array:
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			b.WriteString(" ")
			dumpv(b, v.Index(i), depth+1)
		}
		b.WriteString("]")
	case reflect.Map:
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
		b.WriteString("{")
		for _, k := range keys {
			dumpv(b, k, depth+1)
			b.WriteString(":")
			dumpv(b, v.MapIndex(k), depth+1)
			b.WriteString(" ")
		}
		b.WriteString("}")
	case reflect.Struct:
		if v.CanInterface() {
			if t, ok := v.Interface().(time.Time); ok {
				fmt.Fprintf(b, "%d.%d %s", t.Unix(), t.Nanosecond(), t.Location())
				return
			}
		}
		b.WriteString(v.Type().Name() + "{")
		for i := 0; i < v.NumField(); i++ {
			b.WriteString(v.Type().Field(i).Name + "=")
			dumpv(b, v.Field(i), depth+1)
			b.WriteString(" ")
		}
		b.WriteString("}")
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(b, v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprint(b, v.Float())
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		b.WriteString(v.Kind().String())
	default:
		b.WriteString("?")
	}
}

// firstDiff shows where two dumps part.
func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := i - 60
	if lo < 0 {
		lo = 0
	}
	cut := func(s string) string {
		hi := i + 60
		if hi > len(s) {
			hi = len(s)
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("...%s... became ...%s...", cut(a), cut(b))
}

// roomy reallocates every settable slice under v with spare capacity, so
// that a stray append lands in memory the snapshot watches.
func roomy(v any) { roomyv(reflect.ValueOf(v), 0) }

func roomyv(v reflect.Value, depth int) {
	if depth > 12 {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		switch v.Interface().(type) {
		case *big.Int, *url.URL:
			return
		}
		roomyv(v.Elem(), depth+1)
	case reflect.Struct:
		if _, ok := v.Interface().(time.Time); ok {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				roomyv(v.Field(i), depth+1)
			}
		}
	case reflect.Slice:
		if v.IsNil() || !v.CanSet() || v.Len() == 0 {
			return
		}
		spare := 16 // room for what an append might add
		if v.Type().Elem().Kind() == reflect.Uint8 {
			spare = 80
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len()+spare)
		reflect.Copy(n, v)
		v.Set(n)
		if k := v.Type().Elem().Kind(); k == reflect.Slice || k == reflect.Struct || k == reflect.Ptr {
			for i := 0; i < v.Len(); i++ {
				roomyv(v.Index(i), depth+1)
			}
		}
	}
}

// ---- template generators ----

var nameStrings = []string{"CN", "Beijing", "中国", "北京市海淀区", "A & B, Inc.", "O=x+y", "* star", "a@b.c", "", " lead", "trail ", "quote\"d", "back\\slash", "näme", "\u200d", "<>;#", "very long " + strings.Repeat("n", 120), strings.Repeat("长", 50)}

func anyStr(c *mon.Case) string {
	if c.IntN(3) == 0 {
		return nameStrings[c.IntN(len(nameStrings))]
	}
	n := 1 + c.IntN(12)
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 '()+,-./:=?"[c.IntN(74)]
	}
	return string(b)
}

func someStrs(c *mon.Case, f func(*mon.Case) string) []string {
	switch c.IntN(4) {
	case 0, 1:
		return nil
	case 2:
		return []string{f(c)}
	}
	var s []string
	n := 1 + c.IntN(4)
	if c.IntN(30) == 0 {
		n = 10 + c.IntN(40)
	}
	for i := 0; i < n; i++ {
		s = append(s, f(c))
	}
	return s
}

func anyName(c *mon.Case) pkix.Name {
	if c.IntN(8) == 0 {
		return pkix.Name{}
	}
	n := pkix.Name{
		Country: someStrs(c, func(c *mon.Case) string { return []string{"CN", "US", "GB"}[c.IntN(3)] }), Organization: someStrs(c, anyStr), OrganizationalUnit: someStrs(c, anyStr),
		Locality: someStrs(c, anyStr), Province: someStrs(c, anyStr), StreetAddress: someStrs(c, anyStr), PostalCode: someStrs(c, anyStr),
	}
	if c.IntN(3) > 0 {
		n.CommonName = anyStr(c)
	}
	if c.IntN(4) == 0 {
		n.SerialNumber = anyStr(c)
	}
	for i := c.IntN(5) - 2; i > 0; i-- {
		t := asn1.ObjectIdentifier{1, 2, 3, 4, c.IntN(1 << 20)}
		switch c.IntN(4) {
		case 0:
			t = asn1.ObjectIdentifier{2, 5, 4, 3}
		case 1:
			t = asn1.ObjectIdentifier{0, 9, 2342, 19200300, 100, 1, 25}
		}
		n.ExtraNames = append(n.ExtraNames, pkix.AttributeTypeAndValue{Type: t, Value: anyStr(c)})
	}
	return n
}

func rawName(n pkix.Name) []byte {
	b, err := asn1.Marshal(n.ToRDNSequence())
	if err != nil {
		panic(err)
	}
	return b
}

var labels = []string{"a", "example", "x--y", "xn--fiq228c", "0", "long" + strings.Repeat("l", 50), "com", "cn"}

func anyDomain(c *mon.Case) string {
	var l []string
	for i := 0; i < 1+c.IntN(4); i++ {
		l = append(l, labels[c.IntN(len(labels))])
	}
	return strings.Join(l, ".")
}

func anyDNS(c *mon.Case) string {
	if c.IntN(6) == 0 {
		return "*." + anyDomain(c)
	}
	return anyDomain(c)
}

func anyEmail(c *mon.Case) string {
	return []string{"user", "a.b", "x+tag", "\"q q\"", "o'b"}[c.IntN(5)] + "@" + anyDomain(c)
}

func anyIP(c *mon.Case) net.IP {
	switch c.IntN(4) {
	case 0:
		return net.IP(c.Bytes(4))
	case 1:
		return net.IPv4(byte(c.IntN(256)), byte(c.IntN(256)), 0, 1) // 16-byte form
	case 2:
		return net.IP(make([]byte, 16))
	}
	return net.IP(c.Bytes(16))
}

func anyURLString(c *mon.Case) string {
	s := []string{"http://", "https://", "ldap://", "ftp://"}[c.IntN(4)] + anyDomain(c)
	if c.IntN(2) == 0 {
		s += []string{"/", "/crl.crl", "/a/b?x=1&y=2", "/p#frag", "/%41%20b", "/" + strings.Repeat("p", 150)}[c.IntN(6)]
	}
	return s
}

func anyURL(c *mon.Case) *url.URL {
	s := anyURLString(c)
	if c.IntN(6) == 0 {
		s = []string{"urn:uuid:1", "spiffe://trust/x", "mailto:a@b.c", "/relative/path", "https://user:pw@host.cn/x"}[c.IntN(5)]
	}
	u, err := url.Parse(s)
	if err != nil {
		panic(err)
	}
	return u
}

func anyOID(c *mon.Case) asn1.ObjectIdentifier {
	o := asn1.ObjectIdentifier{c.IntN(3), c.IntN(40)}
	for i := 0; i < 1+c.IntN(7); i++ {
		switch c.IntN(4) {
		case 0:
			o = append(o, c.IntN(128))
		case 1:
			o = append(o, []int{0, 1, 127, 128, 16383, 16384, 1<<28 - 1, 1 << 28, 1<<31 - 1}[c.IntN(9)])
		default:
			o = append(o, c.IntN(1<<16))
		}
	}
	return o
}

// setSANs fills alternative names into the pointed-to fields.
func anySANs(c *mon.Case) (dns, emails []string, ips []net.IP, uris []*url.URL) {
	if c.IntN(4) == 0 {
		return
	}
	dns, emails = someStrs(c, anyDNS), someStrs(c, anyEmail)
	for i := c.IntN(5) - 2; i > 0; i-- {
		ips = append(ips, anyIP(c))
	}
	for i := c.IntN(5) - 2; i > 0; i-- {
		uris = append(uris, anyURL(c))
	}
	return
}

var overridable = []asn1.ObjectIdentifier{{2, 5, 29, 14}, {2, 5, 29, 15}, {2, 5, 29, 17}, {2, 5, 29, 19}, {2, 5, 29, 30}, {2, 5, 29, 31}, {2, 5, 29, 32}, {2, 5, 29, 35}, {2, 5, 29, 37}, {1, 3, 6, 1, 5, 5, 7, 1, 1}}

// validExtValue is a well-formed value for a known extension.
func validExtValue(c *mon.Case, o asn1.ObjectIdentifier) []byte {
	switch o.String() {
	case "2.5.29.14":
		return ref.TLV(4, c.Bytes(1+c.IntN(30)))
	case "2.5.29.15":
		return [][]byte{{3, 2, 7, 0x80}, {3, 2, 1, 6}, {3, 3, 7, 0xff, 0x80}, {3, 2, 0, 0xff}}[c.IntN(4)]
	case "2.5.29.17":
		return ref.TLV(0x30, ref.TLV(0x82, []byte(anyDNS(c))), ref.TLV(0x81, []byte(anyEmail(c))), ref.TLV(0x87, c.Bytes(4)))
	case "2.5.29.19":
		return [][]byte{{0x30, 0}, {0x30, 3, 1, 1, 0xff}, {0x30, 6, 1, 1, 0xff, 2, 1, 0}, {0x30, 6, 1, 1, 0xff, 2, 1, 5}}[c.IntN(4)]
	case "2.5.29.30":
		return ref.TLV(0x30, ref.TLV(0xa0, ref.TLV(0x30, ref.TLV(0x82, []byte(anyDomain(c))))))
	case "2.5.29.31":
		return ref.TLV(0x30, ref.TLV(0x30, ref.TLV(0xa0, ref.TLV(0xa0, ref.TLV(0x86, []byte(anyURLString(c)))))))
	case "2.5.29.32":
		return ref.TLV(0x30, ref.TLV(0x30, []byte{6, 3, 0x2a, 3, byte(c.IntN(100))}))
	case "2.5.29.35":
		return ref.TLV(0x30, ref.TLV(0x80, c.Bytes(1+c.IntN(30))))
	case "2.5.29.37":
		return ref.TLV(0x30, []byte{6, 8, 0x2b, 6, 1, 5, 5, 7, 3, byte(1 + c.IntN(9))})
	case "1.3.6.1.5.5.7.1.1":
		return ref.TLV(0x30, ref.TLV(0x30, []byte{6, 8, 0x2b, 6, 1, 5, 5, 7, 48, byte(1 + c.IntN(2))}, ref.TLV(0x86, []byte(anyURLString(c)))))
	}
	return ref.TLV(4, c.Bytes(c.IntN(20)))
}

// anyExtras draws extra extensions with distinct identifiers, unknown ones
// and explicit forms of known ones.
func anyExtras(c *mon.Case, forCert bool) []pkix.Extension {
	var out []pkix.Extension
	seen := map[string]bool{}
	n := 0
	switch c.IntN(4) {
	case 0, 1:
		n = 0
	case 2:
		n = 1
	case 3:
		n = 1 + c.IntN(6)
	}
	for i := 0; i < n; i++ {
		var e pkix.Extension
		if c.IntN(2) == 0 {
			e.Id = append(asn1.ObjectIdentifier(nil), overridable[c.IntN(len(overridable))]...)
			e.Value = validExtValue(c, e.Id)
			switch e.Id.String() {
			case "2.5.29.15", "2.5.29.19", "2.5.29.30", "2.5.29.17":
				e.Critical = c.IntN(2) == 0
			}
		} else {
			e.Id = anyOID(c)
			e.Value = c.Bytes(c.IntN(30))
			e.Critical = c.IntN(3) == 0
		}
		s := e.Id.String()
		if seen[s] || strings.HasPrefix(s, "2.5.29.") && !isOverridable(e.Id) {
			continue
		}
		seen[s] = true
		out = append(out, e)
	}
	return out
}

func isOverridable(o asn1.ObjectIdentifier) bool {
	for _, x := range overridable {
		if x.Equal(o) {
			return true
		}
	}
	return false
}

func anyTime(c *mon.Case, not9999 bool) time.Time {
	var t time.Time
	switch c.IntN(6) {
	case 0:
		t = time.Date(1950+c.IntN(100), time.Month(1+c.IntN(12)), 1+c.IntN(28), c.IntN(24), c.IntN(60), c.IntN(60), 0, time.UTC)
	case 1:
		t = time.Date(2049+c.IntN(3), 12, 31, 23, 59, 58+c.IntN(4), 0, time.UTC) // UTCTime to GeneralizedTime
	case 2:
		t = time.Date(2050+c.IntN(7000), time.Month(1+c.IntN(12)), 1+c.IntN(28), c.IntN(24), c.IntN(60), c.IntN(60), 0, time.UTC)
	case 3:
		t = time.Date(2000, 2, 29, 0, 0, 0, c.IntN(1e9), time.UTC)
	case 4:
		t = time.Date(9999, 12, 31, 23, 59, 59, 0, time.UTC)
	default:
		t = time.Unix(1500000000+int64(c.IntN(1<<30)), 0)
	}
	if c.IntN(3) == 0 && t.Year() < 9998 && t.Year() > 1951 {
		t = t.In(time.FixedZone("z", (c.IntN(27)-13)*3600+c.IntN(2)*1800))
	}
	return t
}

func anySerial(c *mon.Case) *big.Int {
	switch c.IntN(6) {
	case 0:
		return big.NewInt(1)
	case 1:
		return big.NewInt(int64(c.IntN(300)))
	case 2:
		return new(big.Int).SetBytes(append([]byte{0x80}, c.Bytes(18)...)) // needs a sign byte
	case 3:
		if c.IntN(2) == 0 { // negative ones exist, and the library takes them
			return new(big.Int).Neg(new(big.Int).SetBytes(c.Bytes(1 + c.IntN(20))))
		}
	}
	return new(big.Int).SetBytes(c.Bytes(1 + c.IntN(20)))
}

func anyIPNet(c *mon.Case) *net.IPNet {
	bits := 32
	if c.IntN(2) == 0 {
		bits = 128
	}
	if c.IntN(4) == 0 { // an IPv4 address in its 16-byte form, with a mask of either length
		return &net.IPNet{IP: net.IPv4(byte(c.IntN(256)), byte(c.IntN(256)), byte(c.IntN(256)), byte(c.IntN(256))), Mask: net.CIDRMask(c.IntN(bits+1), bits)}
	}
	return &net.IPNet{IP: net.IP(c.Bytes(bits / 8)), Mask: net.CIDRMask(c.IntN(bits+1), bits)}
}

func constraintDomain(c *mon.Case) string {
	if c.IntN(3) == 0 {
		return "." + anyDomain(c)
	}
	return anyDomain(c)
}

func constraintEmail(c *mon.Case) string {
	if c.IntN(2) == 0 {
		return anyEmail(c)
	}
	return constraintDomain(c)
}

// numeric single labels parse as IP-free domains; avoid all-digit hosts
func uriDomain(c *mon.Case) string { return constraintDomain(c) + ".org" }

// anyTemplate draws a certificate template over all fields the library
// encodes.
func anyTemplate(c *mon.Case) *x509.Certificate {
	t := &x509.Certificate{SerialNumber: anySerial(c), Subject: anyName(c), NotBefore: anyTime(c, true), NotAfter: anyTime(c, false)}
	if c.IntN(6) == 0 {
		t.RawSubject = rawName(anyName(c))
	}
	if c.IntN(3) > 0 {
		t.KeyUsage = x509.KeyUsage(c.IntN(512))
		if c.IntN(3) == 0 {
			t.KeyUsage = 1 << c.IntN(9)
		}
	}
	many := func(n int) int {
		if c.IntN(60) == 0 {
			return 10 + c.IntN(40)
		}
		return n
	}
	for i := many(c.IntN(8) - 3); i > 0; i-- {
		t.ExtKeyUsage = append(t.ExtKeyUsage, x509.ExtKeyUsage(c.IntN(14)))
	}
	for i := many(c.IntN(5) - 2); i > 0; i-- {
		t.UnknownExtKeyUsage = append(t.UnknownExtKeyUsage, append(asn1.ObjectIdentifier{1, 3, 99}, anyOID(c)...))
	}
	if c.IntN(2) == 0 {
		t.BasicConstraintsValid = true
		t.IsCA = c.IntN(3) > 0
		if t.IsCA {
			t.MaxPathLen = []int{-1, 0, 0, 1, 2, 127, 128, 300}[c.IntN(8)]
			t.MaxPathLenZero = c.IntN(2) == 0
		} else if c.IntN(3) == 0 {
			t.MaxPathLen = []int{-1, 0, 1, 200}[c.IntN(4)]
			t.MaxPathLenZero = c.IntN(2) == 0
		}
	}
	if c.IntN(2) == 0 {
		t.SubjectKeyId = c.Bytes(1 + c.IntN(40))
	}
	if c.IntN(2) == 0 {
		t.AuthorityKeyId = c.Bytes(1 + c.IntN(40))
	}
	t.OCSPServer = someStrs(c, anyURLString)
	t.IssuingCertificateURL = someStrs(c, anyURLString)
	t.DNSNames, t.EmailAddresses, t.IPAddresses, t.URIs = anySANs(c)
	for i := many(c.IntN(5) - 2); i > 0; i-- {
		o := anyOID(c)
		t.PolicyIdentifiers = append(t.PolicyIdentifiers, o)
	}
	if c.IntN(3) == 0 {
		t.PermittedDNSDomainsCritical = c.IntN(2) == 0
		t.PermittedDNSDomains = someStrs(c, constraintDomain)
		t.ExcludedDNSDomains = someStrs(c, constraintDomain)
		t.PermittedEmailAddresses = someStrs(c, constraintEmail)
		t.ExcludedEmailAddresses = someStrs(c, constraintEmail)
		t.PermittedURIDomains = someStrs(c, uriDomain)
		t.ExcludedURIDomains = someStrs(c, uriDomain)
		for i := many(c.IntN(4) - 1); i > 0; i-- {
			t.PermittedIPRanges = append(t.PermittedIPRanges, anyIPNet(c))
		}
		for i := many(c.IntN(4) - 1); i > 0; i-- {
			t.ExcludedIPRanges = append(t.ExcludedIPRanges, anyIPNet(c))
		}
	}
	t.CRLDistributionPoints = someStrs(c, anyURLString)
	t.ExtraExtensions = anyExtras(c, true)
	return t
}

// anyReqTemplate draws a request template.
func anyReqTemplate(c *mon.Case) *x509.CertificateRequest {
	t := &x509.CertificateRequest{Subject: anyName(c)}
	if c.IntN(6) == 0 {
		t.RawSubject = rawName(anyName(c))
	}
	t.DNSNames, t.EmailAddresses, t.IPAddresses, t.URIs = anySANs(c)
	t.ExtraExtensions = anyExtras(c, false)
	// attributes, among them extension requests that take priority
	for i := c.IntN(5) - 2; i > 0; i-- {
		a := pkix.AttributeTypeAndValueSET{Type: append(asn1.ObjectIdentifier{1, 2, 99}, anyOID(c)...)}
		for j := c.IntN(3); j > 0; j-- {
			var l []pkix.AttributeTypeAndValue
			for k := c.IntN(3); k >= 0; k-- {
				l = append(l, pkix.AttributeTypeAndValue{Type: anyOID(c), Value: anyStr(c)})
			}
			a.Value = append(a.Value, l)
		}
		t.Attributes = append(t.Attributes, a)
	}
	if c.IntN(3) == 0 {
		a := pkix.AttributeTypeAndValueSET{Type: oidExtReq}
		var l []pkix.AttributeTypeAndValue
		used := map[string]bool{}
		for k := c.IntN(3); k >= 0; k-- {
			o := anyOID(c)
			v := c.Bytes(c.IntN(12))
			if c.IntN(2) == 0 {
				if c.IntN(2) == 0 || len(t.ExtraExtensions) == 0 {
					o, v = oidSANExt, validExtValue(c, oidSANExt)
				} else {
					e := t.ExtraExtensions[c.IntN(len(t.ExtraExtensions))]
					o, v = e.Id, validExtValue(c, e.Id)
				}
			}
			if used[o.String()] {
				continue
			}
			used[o.String()] = true
			l = append(l, pkix.AttributeTypeAndValue{Type: o, Value: v})
		}
		if c.IntN(8) > 0 {
			a.Value = [][]pkix.AttributeTypeAndValue{l}
		}
		at := c.IntN(len(t.Attributes) + 1)
		t.Attributes = append(t.Attributes[:at:at], append([]pkix.AttributeTypeAndValueSET{a}, t.Attributes[at:]...)...)
	}
	return t
}

// ---- semantic views ----

// semantics lists what the extensions of a parsed certificate mean.
func semantics(x *x509.Certificate) map[string]string {
	m := map[string]string{}
	put := func(k string, f string, a ...any) { m[k] = fmt.Sprintf(f, a...) }
	put("keyUsage", "%d", x.KeyUsage)
	put("extKeyUsage", "%v", append([]x509.ExtKeyUsage{}, x.ExtKeyUsage...))
	put("unknownExtKeyUsage", "%v", x.UnknownExtKeyUsage)
	put("basicConstraints", "%v %v %d %v", x.BasicConstraintsValid, x.IsCA, x.MaxPathLen, x.MaxPathLenZero)
	put("subjectKeyId", "%x", x.SubjectKeyId)
	put("authorityKeyId", "%x", x.AuthorityKeyId)
	put("ocsp", "%q", x.OCSPServer)
	put("issuingURL", "%q", x.IssuingCertificateURL)
	put("dns", "%q", x.DNSNames)
	put("email", "%q", x.EmailAddresses)
	put("ip", "%s", rawIPList(x.IPAddresses))
	put("uri", "%s", uriList(x.URIs))
	put("policies", "%v", x.PolicyIdentifiers)
	put("ncCritical", "%v", x.PermittedDNSDomainsCritical)
	put("permittedDNS", "%q", x.PermittedDNSDomains)
	put("excludedDNS", "%q", x.ExcludedDNSDomains)
	put("permittedEmail", "%q", x.PermittedEmailAddresses)
	put("excludedEmail", "%q", x.ExcludedEmailAddresses)
	put("permittedURI", "%q", x.PermittedURIDomains)
	put("excludedURI", "%q", x.ExcludedURIDomains)
	put("permittedIP", "%s", netList(x.PermittedIPRanges))
	put("excludedIP", "%s", netList(x.ExcludedIPRanges))
	put("crl", "%q", x.CRLDistributionPoints)
	var un []string
	for _, o := range x.UnhandledCriticalExtensions {
		if !stdOnlyExts[o.String()] {
			un = append(un, o.String())
		}
	}
	put("unhandled", "%v", un)
	return m
}

func ipList(l []net.IP) string {
	var s []string
	for _, ip := range l {
		if v4 := ip.To4(); v4 != nil {
			ip = v4
		}
		s = append(s, fmt.Sprintf("%x", []byte(ip)))
	}
	return strings.Join(s, ",")
}

func rawIPList(l []net.IP) string {
	var s []string
	for _, ip := range l {
		s = append(s, fmt.Sprintf("%x", []byte(ip)))
	}
	return strings.Join(s, ",")
}

func uriList(l []*url.URL) string {
	var s []string
	for _, u := range l {
		s = append(s, u.String())
	}
	return fmt.Sprintf("%q", s)
}

func netList(l []*net.IPNet) string {
	var s []string
	for _, n := range l {
		s = append(s, fmt.Sprintf("%x/%x", []byte(n.IP.Mask(n.Mask)), []byte(n.Mask)))
	}
	return strings.Join(s, ",")
}

func diffMaps(a, b map[string]string) string {
	var keys []string
	for k := range a {
		keys = append(keys, k)
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		if a[k] != b[k] {
			return fmt.Sprintf("%s: got %s, want %s", k, a[k], b[k])
		}
	}
	return ""
}

// sameName compares parsed names field by field.
func sameName(a, b pkix.Name) string {
	va, vb := dumpNoCap(a), dumpNoCap(b)
	if va != vb {
		return firstDiff(va, vb)
	}
	return ""
}

func dumpNoCap(v any) string { return fmt.Sprintf("%+v", v) }

func extListString(l []extPart) string {
	var s []string
	for _, e := range l {
		s = append(s, e.String())
	}
	sort.Strings(s)
	return strings.Join(s, "\n")
}

func pkixExts(l []pkix.Extension) []extPart {
	var out []extPart
	for _, e := range l {
		out = append(out, extPart{e.Id.String(), e.Critical, e.Value})
	}
	return out
}

func isSub(whole, part []byte) bool { return len(part) > 0 && bytes.Contains(whole, part) }
