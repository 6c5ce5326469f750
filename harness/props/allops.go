package props

import (
	"crypto/cipher"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/hex"
	"fmt"
	"math/big"
	mrand "math/rand/v2"
	"strconv"
	"time"

	"github.com/ZZMarquis/gm/cryptobyte"
	cbasn1 "github.com/ZZMarquis/gm/cryptobyte/asn1"
	"github.com/ZZMarquis/gm/sm2"
	"github.com/ZZMarquis/gm/sm2/cert"
	"github.com/ZZMarquis/gm/sm3"
	"github.com/ZZMarquis/gm/sm4"
	"github.com/ZZMarquis/gm/util"

	"vharness/mon"
	"vharness/ref"
)

// Fx is the set of objects operations share: everything they are given.
type Fx struct {
	D        []*big.Int // two static and two ephemeral scalars
	Priv     []*sm2.PrivateKey
	Pub      []*sm2.PublicKey
	P        []ref.Pt
	ID       [][]byte
	Msg      []byte
	Key, IV  []byte
	Blocks   []byte
	Pad      []byte
	R, S     *big.Int
	Sig      []byte
	CT       [][]byte // C1C3C2, C1C2C3
	CTDER    [][]byte
	ReqDER   []byte
	CertDER  []byte
	Certs    [][]byte // CertDER and ones with every kind of extension
	Reqs     [][]byte
	DefSig   []byte // by the second key over Blocks under the default id
	Times    []time.Time
	SPKI     []byte
	SigBytes []byte
	DER      []byte
	Ints     []*big.Int
	Tag      []byte
	Raw      [][]byte // raw private and public keys

	ReqTemplate *x509.CertificateRequest
	Template    *x509.Certificate
	Parent      *x509.Certificate
	OID         asn1.ObjectIdentifier

	// made by the library, absent in a cold process
	Block cipher.Block
	Req   *x509.CertificateRequest
	Cert  *x509.Certificate
	Info  *cert.TBSCertificate

	cold bool
}

// newFx builds the objects; cold avoids every call into the library.
func newFx(c *mon.Case, cold bool) *Fx {
	fx := &Fx{cold: cold}
	for i := 0; i < 4; i++ {
		d, _ := anyKey(c)
		if i < 2 && c.IntN(8) == 0 {
			d = num(1)
		}
		fx.D = append(fx.D, d)
		p := ref.SM2.MulG(d)
		fx.P = append(fx.P, p)
		fx.Raw = append(fx.Raw, ref.B32(d), append(ref.B32(p.X), ref.B32(p.Y)...))
		if !cold {
			fx.Priv = append(fx.Priv, gmPriv(d))
			fx.Pub = append(fx.Pub, gmPub(p))
		}
	}
	fx.ID = [][]byte{c.Bytes(1 + c.IntN(40)), []byte("peer")}
	fx.Msg = c.Bytes(1 + c.IntN(200))
	if c.IntN(8) == 0 {
		fx.ID[0] = c.Bytes(1 + c.IntN(8191))
	}
	if c.IntN(8) == 0 {
		fx.Msg = c.Bytes(4000 + c.IntN(8000))
	}
	fx.Key, fx.IV = c.Bytes(16), c.Bytes(16)
	fx.Blocks = c.Bytes(16 * (1 + c.IntN(6)))
	switch c.IntN(8) {
	case 0, 1:
		fx.Blocks = c.Bytes(16 * (8 + c.IntN(60)))
	case 2:
		fx.Blocks = c.Bytes(16 * (250 + c.IntN(800)))
	}
	fx.Pad = c.Bytes(1 + c.IntN(40))
	for {
		var ok bool
		if fx.R, fx.S, ok = ref.SM2.SignK(fx.D[0], ref.SM2.E(fx.P[0], fx.ID[0], fx.Msg), scalar(c)); ok {
			break
		}
	}
	fx.Sig = ref.SigDER(fx.R, fx.S)
	for _, first := range []bool{true, false} {
		ct := refEncrypt(c, fx.P[0], fx.Msg, nil, first)
		fx.CT = append(fx.CT, ct)
		d, err := ref.CipherDER(ct, first)
		if err != nil {
			panic(err)
		}
		fx.CTDER = append(fx.CTDER, d)
	}
	fx.ReqDER, _ = madeReq(c, fx.D[0], fx.ID[0])
	s := goodSpec(c, []rawExt{
		{asn1.ObjectIdentifier{2, 5, 29, 15}, true, []byte{3, 2, 1, 6}},
		{asn1.ObjectIdentifier{2, 5, 29, 17}, false, ref.TLV(0x30, ref.TLV(0x82, []byte("a.cn")), ref.TLV(0x87, []byte{1, 2, 3, 4}))},
		{asn1.ObjectIdentifier{2, 5, 29, 30}, false, ref.TLV(0x30, ref.TLV(0xa0, ref.TLV(0x30, ref.TLV(0x82, []byte("a.cn")))))},
		{asn1.ObjectIdentifier{2, 5, 29, 14}, false, ref.TLV(4, c.Bytes(20))},
	})
	s.spki = spkiOf(fx.P[1])
	fx.CertDER = s.der()
	fx.Certs, fx.Reqs = [][]byte{fx.CertDER}, [][]byte{fx.ReqDER}
	var all, foreign []rawExt
	for _, o := range overridable {
		all = append(all, rawExt{o, false, validExtValue(c, o)})
		if c.IntN(2) == 0 {
			foreign = append(foreign, rawExt{o, c.IntN(4) == 0, foreignValue(c, o)})
		}
	}
	var ekus []byte
	for i := 0; i < 6; i++ {
		ekus = append(ekus, []byte{6, 8, 0x2b, 6, 1, 5, 5, 7, 3, byte(1 + c.IntN(9))}...)
	}
	fx.Certs = append(fx.Certs, goodSpec(c, all).der(), goodSpec(c, foreign).der(),
		goodSpec(c, []rawExt{{asn1.ObjectIdentifier{2, 5, 29, 37}, false, ref.TLV(0x30, ekus)}}).der())
	if c.IntN(2) == 0 { // without extensions
		plain := goodSpec(c, nil)
		plain.version = nil
		fx.Certs = append(fx.Certs, plain.der())
		fx.Reqs = append(fx.Reqs, reqWithAttrs(nil, fx.P[2]))
	}
	fx.Reqs = append(fx.Reqs, reqWithExts([]rawExt{{oidSANExt, false, foreignValue(c, oidSANExt)}, {anyOID(c), true, c.Bytes(c.IntN(9))}}, fx.P[1]),
		reqWithExts(all, fx.P[2]))
	for {
		if r, s, ok := ref.SM2.SignK(fx.D[1], ref.SM2.E(fx.P[1], nil, fx.Blocks), scalar(c)); ok {
			fx.DefSig = ref.SigDER(r, s)
			break
		}
	}
	for i := 0; i < 4; i++ {
		fx.Times = append(fx.Times, time.Unix(c.Int64N(1<<33), 0).UTC())
	}
	fx.SPKI = spkiOf(fx.P[2])
	fx.SigBytes = ref.SigDER(int256(c), int256(c))
	fx.DER = ref.TLV(0x30, ref.DERInt(int256(c)), ref.TLV(4, c.Bytes(20)), ref.TLV(0x30, ref.DERInt(num(7)), []byte{6, 3, 0x55, 4, 3}, []byte{1, 1, 0xff}))
	fx.Ints = []*big.Int{int256(c), int256(c), num(int64(c.IntN(5) - 2)), new(big.Int).Neg(int256(c)), cp(bigN), new(big.Int)}
	fx.Tag = c.Bytes(32)
	fx.ReqTemplate = &x509.CertificateRequest{Subject: pkix.Name{CommonName: "req", Organization: []string{"o"}}, DNSNames: []string{"a.cn", "b.cn"}, EmailAddresses: []string{"a@b.cn"},
		ExtraExtensions: []pkix.Extension{{Id: asn1.ObjectIdentifier{1, 2, 3}, Value: []byte{5, 0}}},
		Attributes: []pkix.AttributeTypeAndValueSET{{Type: asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 14}, Value: [][]pkix.AttributeTypeAndValue{
			{{Type: asn1.ObjectIdentifier{1, 2, 3, 5}, Value: []byte{5, 0}}}}}}}
	fx.Template = &x509.Certificate{SerialNumber: num(1 + int64(c.IntN(1000))), Subject: pkix.Name{CommonName: "cn"}, NotBefore: time.Unix(1600000000, 0), NotAfter: time.Unix(1900000000, 0),
		KeyUsage: x509.KeyUsageCertSign, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}, UnknownExtKeyUsage: []asn1.ObjectIdentifier{{1, 2, 3, 4}}, BasicConstraintsValid: true, IsCA: true, MaxPathLen: 2,
		SubjectKeyId: c.Bytes(20), DNSNames: []string{"a.cn"}, PermittedDNSDomains: []string{"a.cn"}, CRLDistributionPoints: []string{"http://a.cn/crl"}, OCSPServer: []string{"http://o.cn"},
		PolicyIdentifiers: []asn1.ObjectIdentifier{{1, 2, 3}}, ExtraExtensions: []pkix.Extension{{Id: asn1.ObjectIdentifier{1, 2, 3, 9}, Value: []byte{5, 0}}}}
	switch c.IntN(4) {
	case 0:
		fx.ReqTemplate = anyReqTemplate(c)
	case 1:
		fx.Template = anyTemplate(c)
	case 2:
		fx.ReqTemplate.DNSNames, fx.ReqTemplate.EmailAddresses, fx.ReqTemplate.IPAddresses, fx.ReqTemplate.URIs = anySANs(c)
		fx.Template.DNSNames, fx.Template.EmailAddresses, fx.Template.IPAddresses, fx.Template.URIs = anySANs(c)
	}
	fx.Parent = &x509.Certificate{Subject: pkix.Name{CommonName: "ca", Country: []string{"CN"}}, SubjectKeyId: c.Bytes(20)}
	fx.OID = asn1.ObjectIdentifier{1, 2, 156, 10197, 1, 501}
	if !cold {
		var err error
		if fx.Block, err = sm4.NewCipher(fx.Key); err != nil {
			panic(err)
		}
		if fx.Req, err = cert.ParseCertificateRequest(clone(fx.ReqDER)); err != nil {
			panic(err)
		}
		if fx.Cert, err = cert.ParseCertificate(clone(fx.CertDER)); err != nil {
			panic(err)
		}
		if fx.Info, err = cert.CreateCertificateInfo(fx.Template, fx.Parent, fx.Req); err != nil {
			panic(err)
		}
		// room again: what these calls may have left there would hide
		// that the same call does so once more
	}
	roomy(fx)
	return fx
}

func (fx *Fx) priv(i int) *sm2.PrivateKey {
	if fx.cold {
		return gmPriv(fx.D[i])
	}
	return fx.Priv[i]
}

func (fx *Fx) pub(i int) *sm2.PublicKey {
	if fx.cold {
		return gmPub(fx.P[i])
	}
	return fx.Pub[i]
}

func (fx *Fx) block() cipher.Block {
	if fx.cold {
		b, err := sm4.NewCipher(fx.Key)
		if err != nil {
			panic(err)
		}
		return b
	}
	return fx.Block
}

func (fx *Fx) req() *x509.CertificateRequest {
	if fx.cold {
		q, err := cert.ParseCertificateRequest(fx.ReqDER)
		if err != nil {
			panic(err)
		}
		return q
	}
	return fx.Req
}

func (fx *Fx) info() *cert.TBSCertificate {
	if fx.cold {
		t, err := cert.CreateCertificateInfo(fx.Template, fx.Parent, fx.req())
		if err != nil {
			panic(err)
		}
		return t
	}
	return fx.Info
}

// anOp is one library operation on shared objects. run returns a digest
// that is the same for every execution with the same r, and its results.
type anOp struct {
	name  string
	heavy int // rough cost in scalar multiplications
	run   func(fx *Fx, r *mrand.Rand) (string, []any)
}

// digest avoids fmt where it can: its pools would order the goroutines
// that run operations.
func digest(parts ...any) string {
	var b []byte
	for _, p := range parts {
		switch x := p.(type) {
		case []byte:
			b = strconv.AppendInt(b, int64(len(x)), 10)
			b = append(b, ':')
			b = hex.AppendEncode(b, x)
		case *big.Int:
			if x == nil {
				b = append(b, "nil"...)
			} else {
				b = x.Append(b, 16)
			}
		case error:
			b = append(b, "error"...)
		case nil:
			b = append(b, "nil"...)
		case string:
			b = strconv.AppendQuote(b, x)
		case bool:
			b = strconv.AppendBool(b, x)
		case int:
			b = strconv.AppendInt(b, int64(x), 10)
		default:
			b = fmt.Appendf(b, "%v", x)
		}
		b = append(b, '|')
	}
	h := ref.SM3(b)
	if len(b) > 160 {
		b = b[:160]
	}
	return hex.EncodeToString(h[:8]) + " " + string(b)
}

type rndReader struct{ r *mrand.Rand }

func (r rndReader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(r.r.Uint32())
	}
	return len(p), nil
}

var allOps = []*anOp{
	{"sm3.Sum", 0, func(fx *Fx, r *mrand.Rand) (string, []any) {
		h := sm3.Sum(fx.Msg)
		return digest(h[:]), nil
	}},
	{"sm3 streaming", 0, func(fx *Fx, r *mrand.Rand) (string, []any) {
		h := sm3.New()
		n := r.IntN(len(fx.Msg))
		h.Write(fx.Msg[:n])
		a := h.Sum(nil)
		h.Write(fx.Msg[n:])
		b := h.Sum(fx.Tag[:0:0])
		h.Reset()
		h.Write(fx.Blocks)
		d := h.Sum(fx.IV[:3:3])
		return digest(a, b, d, h.Size(), h.BlockSize()), []any{a, b, d}
	}},
	{"sm4 block", 0, func(fx *Fx, r *mrand.Rand) (string, []any) {
		k := fx.block()
		a, b := make([]byte, 16), make([]byte, 16)
		for i := 0; i < 20; i++ {
			k.Encrypt(a, fx.Blocks[:16])
			k.Decrypt(b, a)
		}
		return digest(a, b, k.BlockSize()), []any{a, b}
	}},
	{"sm4 stream modes", 0, func(fx *Fx, r *mrand.Rand) (string, []any) {
		k := fx.block()
		a, b, d := make([]byte, len(fx.Blocks)), make([]byte, len(fx.Blocks)), make([]byte, len(fx.Msg))
		cipher.NewCBCEncrypter(k, fx.IV).CryptBlocks(a, fx.Blocks)
		cipher.NewCBCDecrypter(k, fx.IV).CryptBlocks(b, fx.Blocks)
		cipher.NewCTR(k, fx.IV).XORKeyStream(d, fx.Msg)
		return digest(a, b, d), []any{a, b, d}
	}},
	{"sm4.NewCipher", 0, func(fx *Fx, r *mrand.Rand) (string, []any) {
		k, err := sm4.NewCipher(fx.Key)
		_, err2 := sm4.NewCipher(fx.Key[:15])
		a := make([]byte, 16)
		k.Encrypt(a, fx.Blocks)
		return digest(a, err, err2), []any{a, k}
	}},
	{"sm4 ECB", 0, func(fx *Fx, r *mrand.Rand) (string, []any) {
		a, e1 := sm4.ECBEncrypt(fx.Key, fx.Blocks)
		b, e2 := sm4.ECBDecrypt(fx.Key, fx.Blocks)
		d, e3 := sm4.ECBEncrypt(fx.Key, fx.Blocks[:len(fx.Blocks)-1])
		return digest(a, b, d, e1, e2, e3), []any{a, b, d}
	}},
	{"sm4 CBC", 0, func(fx *Fx, r *mrand.Rand) (string, []any) {
		a, e1 := sm4.CBCEncrypt(fx.Key, fx.IV, fx.Blocks)
		b, e2 := sm4.CBCDecrypt(fx.Key, fx.IV, fx.Blocks)
		d, e3 := sm4.CBCDecrypt(fx.Key, fx.IV[:8], fx.Blocks)
		return digest(a, b, d, e1, e2, e3), []any{a, b, d}
	}},
	{"padding", 0, func(fx *Fx, r *mrand.Rand) (string, []any) {
		bs := 1 + r.IntN(255)
		a := util.PKCS5Padding(fx.Pad, bs)
		z := util.ZeroPadding(fx.Pad, bs)
		u := util.PKCS5UnPadding(fx.Pad)
		v := util.UnZeroPadding(fx.Pad, r.IntN(len(fx.Pad)))
		return digest(a, z, u, v), []any{a, z}
	}},
	{"bigint helpers", 0, func(fx *Fx, r *mrand.Rand) (string, []any) {
		x, y, m := fx.Ints[r.IntN(len(fx.Ints))], fx.Ints[r.IntN(len(fx.Ints))], fx.Ints[0]
		if m.Sign() == 0 {
			m = fx.Ints[4]
		}
		a, b, d, e := util.Add(x, y), util.Sub(x, y), util.Mul(x, y), util.Mod(x, m)
		f, g, h := util.Lsh(x, uint(r.IntN(300))), util.SetBit(x, r.IntN(300), uint(r.IntN(2))), util.And(x, y)
		i := util.ModInverse(fx.Ints[1], bigP)
		z := util.ZForAffine(x, y)
		return digest(a, b, d, e, f, g, h, i, z, util.IsEcPointInfinity(x, y)), []any{a, b, d, e, f, g, h, i, z}
	}},
	{"curve", 4, func(fx *Fx, r *mrand.Rand) (string, []any) {
		cv := sm2.GetSm2P256V1()
		p, q := fx.pub(0), fx.pub(1)
		var x, y, u, v, s, t *big.Int
		switch r.IntN(3) {
		case 0:
			x, y = cv.ScalarBaseMult(fx.Raw[0])
		case 1:
			x, y = cv.ScalarMult(p.X, p.Y, fx.Raw[2])
		case 2:
			x, y = cv.ScalarBaseMult([]byte{byte(r.IntN(3))})
		}
		if p.X.Cmp(q.X) != 0 {
			u, v = cv.Add(p.X, p.Y, q.X, q.Y)
		} else {
			u, v = new(big.Int), new(big.Int)
		}
		s, t = cv.Double(p.X, p.Y)
		return digest(x, y, u, v, s, t, cv.IsOnCurve(p.X, p.Y), cv.IsOnCurve(p.Y, p.X), cv.Params().N, cv.Params().Gx, cv.Params().P, cv.Params().B, cv.A), []any{x, y, u, v, s, t}
	}},
	{"sm2.GenerateKey", 1, func(fx *Fx, r *mrand.Rand) (string, []any) {
		k, p, err := sm2.GenerateKey(rndReader{r})
		if err != nil {
			return digest(err), nil
		}
		return digest(k.D, p.X, p.Y, k.Curve.N), []any{k.D, p.X, p.Y}
	}},
	{"sm2.CalculatePubKey", 1, func(fx *Fx, r *mrand.Rand) (string, []any) {
		p := sm2.CalculatePubKey(fx.priv(r.IntN(4)))
		return digest(p.X, p.Y), []any{p.X, p.Y}
	}},
	{"key serialisation", 0, func(fx *Fx, r *mrand.Rand) (string, []any) {
		i := r.IntN(4)
		a, b, d := fx.priv(i).GetRawBytes(), fx.pub(i).GetRawBytes(), fx.pub(i).GetUnCompressBytes()
		return digest(a, b, d), []any{a, b, d}
	}},
	{"key parsing", 0, func(fx *Fx, r *mrand.Rand) (string, []any) {
		i := r.IntN(4)
		k, e1 := sm2.RawBytesToPrivateKey(fx.Raw[2*i])
		p, e2 := sm2.RawBytesToPublicKey(fx.Raw[2*i+1])
		_, e3 := sm2.RawBytesToPublicKey(fx.Raw[2*i])
		if e1 != nil || e2 != nil {
			return digest(e1, e2, e3), nil
		}
		return digest(k.D, p.X, p.Y, e3), []any{k.D, p.X, p.Y}
	}},
	{"sm2.Sign", 2, func(fx *Fx, r *mrand.Rand) (string, []any) {
		der, err := sm2.Sign(fx.priv(0), fx.ID[0], fx.Msg)
		if err != nil {
			return digest(err), nil
		}
		x, y, err := ref.ParseSig(der)
		return digest(err, err == nil && ref.SM2.Verify(fx.P[0], fx.ID[0], fx.Msg, x, y)), []any{der}
	}},
	{"sm2.SignToRS", 2, func(fx *Fx, r *mrand.Rand) (string, []any) {
		x, y, err := sm2.SignToRS(fx.priv(1), nil, fx.Blocks)
		if err != nil {
			return digest(err), nil
		}
		return digest(ref.SM2.Verify(fx.P[1], ref.DefaultID, fx.Blocks, x, y)), []any{x, y}
	}},
	{"sm2.Verify", 2, func(fx *Fx, r *mrand.Rand) (string, []any) {
		return digest(sm2.Verify(fx.pub(0), fx.ID[0], fx.Msg, fx.Sig), sm2.Verify(fx.pub(0), fx.ID[0], fx.Msg, fx.Sig[:len(fx.Sig)-1])), nil
	}},
	{"sm2.Verify default id", 4, func(fx *Fx, r *mrand.Rand) (string, []any) {
		return digest(sm2.Verify(fx.pub(1), nil, fx.Blocks, fx.DefSig), sm2.Verify(fx.pub(1), []byte{}, fx.Blocks, fx.DefSig)), nil
	}},
	{"sm2.VerifyByRS", 4, func(fx *Fx, r *mrand.Rand) (string, []any) {
		return digest(sm2.VerifyByRS(fx.pub(0), fx.ID[0], fx.Msg, fx.R, fx.S), sm2.VerifyByRS(fx.pub(0), fx.ID[1], fx.Msg, fx.R, fx.S)), nil
	}},
	{"signature codec", 0, func(fx *Fx, r *mrand.Rand) (string, []any) {
		a, e1 := sm2.MarshalSign(fx.R, fx.S)
		x, y, e2 := sm2.UnmarshalSign(fx.Sig)
		_, _, e3 := sm2.UnmarshalSign(fx.DER)
		return digest(a, x, y, e1, e2, e3), []any{a, x, y}
	}},
	{"sm2.Encrypt", 2, func(fx *Fx, r *mrand.Rand) (string, []any) {
		first := r.IntN(2) == 0
		ct, err := sm2.Encrypt(fx.pub(0), fx.Msg, typeOf(first))
		if err != nil {
			return digest(err), nil
		}
		m, err := ref.SM2.Decrypt(fx.D[0], ct, first)
		return digest(m, err), []any{ct}
	}},
	{"sm2.Decrypt", 1, func(fx *Fx, r *mrand.Rand) (string, []any) {
		i := r.IntN(2)
		m, err := sm2.Decrypt(fx.priv(0), fx.CT[i], typeOf(i == 0))
		return digest(m, err), []any{m}
	}},
	{"sm2.Decrypt wrong", 1, func(fx *Fx, r *mrand.Rand) (string, []any) {
		i := r.IntN(2)
		m, err := sm2.Decrypt(fx.priv(1), fx.CT[i], typeOf(i == 0))
		m2, err2 := sm2.Decrypt(fx.priv(0), fx.CT[i][:90], typeOf(i == 0))
		if fx.D[0].Cmp(fx.D[1]) == 0 {
			return digest(m2, err2), nil
		}
		return digest(m, err, m2, err2), []any{m}
	}},
	{"ciphertext codec", 0, func(fx *Fx, r *mrand.Rand) (string, []any) {
		i := r.IntN(2)
		a, e1 := sm2.MarshalCipher(fx.CT[i], typeOf(i == 0))
		b, e2 := sm2.UnmarshalCipher(fx.CTDER[i], typeOf(i == 0))
		d, e3 := sm2.UnmarshalCipher(fx.DER, typeOf(i == 0))
		return digest(a, b, d, e1, e2, e3), []any{a, b, d}
	}},
	{"key exchange", 3, func(fx *Fx, r *mrand.Rand) (string, []any) {
		init := r.IntN(2) == 0
		var tag []byte
		res, err := sm2.CalculateKeyWithConfirmation(false, 128+r.IntN(200), nil, fx.priv(0), fx.priv(2), fx.ID[0], fx.pub(1), fx.pub(3), fx.ID[1])
		if err != nil {
			return digest(err), nil
		}
		out := []any{res.Key, res.S1, res.S2}
		if init {
			tag = clone(res.S1)
			res2, err := sm2.CalculateKeyWithConfirmation(true, len(res.Key)*8, tag, fx.priv(1), fx.priv(3), fx.ID[1], fx.pub(0), fx.pub(2), fx.ID[0])
			if err != nil {
				return digest("initiator", err), nil
			}
			return digest(res.Key, res.S1, res.S2, res2.Key, res2.S1, res2.S2, sm2.ResponderConfirm(res.S2, res2.S2)), append(out, res2.Key, res2.S1, res2.S2)
		}
		_, err = sm2.CalculateKeyWithConfirmation(true, 128, fx.Tag, fx.priv(1), fx.priv(3), fx.ID[1], fx.pub(0), fx.pub(2), fx.ID[0])
		return digest(res.Key, res.S1, res.S2, err, sm2.ResponderConfirm(fx.Tag, fx.Tag), sm2.ResponderConfirm(fx.Tag, res.S2)), out
	}},
	{"cert.ParseCertificate", 0, func(fx *Fx, r *mrand.Rand) (string, []any) {
		x, err := cert.ParseCertificate(fx.Certs[r.IntN(len(fx.Certs))])
		_, err2 := cert.ParseCertificate(fx.CertDER[:len(fx.CertDER)-1])
		if err != nil {
			return digest(err, err2), nil
		}
		p := x.PublicKey.(*sm2.PublicKey)
		return digest(fmt.Sprint(semantics(x)), p.X, p.Y, x.Raw, err2), []any{p.X, p.Y, x.SerialNumber}
	}},
	{"cert.ParseCertificateRequest", 0, func(fx *Fx, r *mrand.Rand) (string, []any) {
		q, err := cert.ParseCertificateRequest(fx.Reqs[r.IntN(len(fx.Reqs))])
		if err != nil {
			return digest(err), nil
		}
		p := q.PublicKey.(*sm2.PublicKey)
		return digest(fmt.Sprint(reqSemantics(q)), p.X, p.Y, q.Raw), []any{p.X, p.Y}
	}},
	{"cert.VerifyCSRSign", 2, func(fx *Fx, r *mrand.Rand) (string, []any) {
		return digest(cert.VerifyCSRSign(fx.req(), fx.ID[r.IntN(2)])), nil
	}},
	{"cert.VerifyDERCSRSign", 2, func(fx *Fx, r *mrand.Rand) (string, []any) {
		ok, err := cert.VerifyDERCSRSign(fx.ReqDER, fx.ID[0])
		ok2, err2 := cert.VerifyDERCSRSign(fx.CertDER, fx.ID[0])
		return digest(ok, err, ok2, err2), nil
	}},
	{"cert.CreateCertificateRequest", 2, func(fx *Fx, r *mrand.Rand) (string, []any) {
		der, err := cert.CreateCertificateRequest(fx.ReqTemplate, fx.pub(0), fx.priv(0), fx.ID[0])
		if err != nil {
			return digest(err), nil
		}
		p, err := readReq(der)
		if err != nil {
			return digest("not DER"), nil
		}
		x, y, err := ref.ParseSig(p.sig)
		return digest(p.tbs, err, err == nil && ref.SM2.Verify(fx.P[0], fx.ID[0], p.tbs, x, y)), []any{der}
	}},
	{"cert.CreateCertificateInfo", 0, func(fx *Fx, r *mrand.Rand) (string, []any) {
		t, err := cert.CreateCertificateInfo(fx.Template, fx.Parent, fx.req())
		if err != nil {
			return digest(err), nil
		}
		der, err := cert.CreateCertificate(t, fx.SigBytes)
		return digest(der, err), []any{der}
	}},
	{"cert.CreateCertificate", 0, func(fx *Fx, r *mrand.Rand) (string, []any) {
		der, err := cert.CreateCertificate(fx.info(), fx.SigBytes)
		return digest(der, err), []any{der}
	}},
	{"cert.IssueCertificateBySoftCAKey", 2, func(fx *Fx, r *mrand.Rand) (string, []any) {
		der, err := cert.IssueCertificateBySoftCAKey(fx.info(), fx.priv(1), fx.ID[1])
		if err != nil {
			return digest(err), nil
		}
		p, err := readCert(der)
		if err != nil {
			return digest("not DER"), nil
		}
		x, y, err := ref.ParseSig(p.sig)
		return digest(p.tbs, err, err == nil && ref.SM2.Verify(fx.P[1], fx.ID[1], p.tbs, x, y)), []any{der}
	}},
	{"cert.FillCertificateTemplateByCSR", 0, func(fx *Fx, r *mrand.Rand) (string, []any) {
		t := *fx.Template
		cert.FillCertificateTemplateByCSR(&t, fx.req())
		return digest(t.Subject.String(), fmt.Sprint(t.DNSNames, t.EmailAddresses, t.IPAddresses, t.URIs)), nil
	}},
	{"cryptobyte.Builder", 0, func(fx *Fx, r *mrand.Rand) (string, []any) {
		var b cryptobyte.Builder
		b.AddASN1(cbasn1.SEQUENCE, func(k *cryptobyte.Builder) {
			k.AddASN1BigInt(fx.Ints[r.IntN(len(fx.Ints))])
			k.AddASN1OctetString(fx.Msg)
			k.AddASN1ObjectIdentifier(fx.OID)
			k.AddUint16LengthPrefixed(func(j *cryptobyte.Builder) { j.AddBytes(fx.Blocks) })
		})
		a, err := b.Bytes()
		fixed := cryptobyte.NewFixedBuilder(make([]byte, 0, 30))
		fixed.AddBytes(fx.Pad)
		_, err2 := fixed.Bytes()
		g := cryptobyte.NewBuilder(nil)
		g.AddBytes(fx.Msg)
		d, err3 := g.Bytes()
		return digest(a, d, err, err2, err3), []any{a, d}
	}},
	{"cryptobyte.String", 0, func(fx *Fx, r *mrand.Rand) (string, []any) {
		s := cryptobyte.String(fx.DER)
		var in, oct cryptobyte.String
		var n, m big.Int
		var o asn1.ObjectIdentifier
		var t bool
		ok := s.ReadASN1(&in, cbasn1.SEQUENCE) && in.ReadASN1Integer(&n) && in.ReadASN1(&oct, cbasn1.OCTET_STRING) && in.ReadASN1(&in, cbasn1.SEQUENCE) &&
			in.ReadASN1Integer(&m) && in.ReadASN1ObjectIdentifier(&o) && in.ReadASN1Boolean(&t) && in.Empty() && s.Empty()
		k := cryptobyte.String(fx.Msg)
		w := make([]byte, 3)
		ok2 := k.CopyBytes(w)
		return digest(ok, &n, []byte(oct), &m, o, t, ok2, w), []any{&n, &m, []int(o), w}
	}},
}

func init() {
	allOps = append(allOps,
		&anOp{"cryptobyte.Builder values", 0, func(fx *Fx, r *mrand.Rand) (string, []any) {
			b := cryptobyte.NewBuilder(make([]byte, 0, r.IntN(100)))
			t := fx.Times[r.IntN(len(fx.Times))]
			b.AddUint8LengthPrefixed(func(k *cryptobyte.Builder) { k.AddUint8(7); k.AddUint16(700) })
			b.AddUint24LengthPrefixed(func(k *cryptobyte.Builder) { k.AddUint24(70000); k.AddBytes(fx.IV) })
			b.AddUint32LengthPrefixed(func(k *cryptobyte.Builder) { k.AddUint32(1 << 31) })
			b.AddASN1(cbasn1.SET, func(k *cryptobyte.Builder) {
				k.AddASN1GeneralizedTime(t)
				k.AddASN1Int64(int64(r.Uint64()))
				k.AddASN1Uint64(r.Uint64())
				k.AddASN1Enum(int64(r.IntN(300)))
				k.AddASN1Boolean(r.IntN(2) == 0)
				k.AddASN1NULL()
				k.AddASN1BitString(fx.Blocks)
				k.MarshalASN1([]int{1, 2, r.IntN(500)})
				k.AddValue(opValue(fx.Pad))
			})
			a, err := b.Bytes()
			_, p := mon.Panics(func() {
				var f cryptobyte.Builder
				f.AddValue(opValue(nil))
				f.BytesOrPanic()
			})
			return digest(a, err, p), []any{a}
		}},
		&anOp{"cryptobyte.String values", 0, func(fx *Fx, r *mrand.Rand) (string, []any) {
			enc := ref.TLV(0x18, []byte(fx.Times[r.IntN(len(fx.Times))].Format("20060102150405Z")))
			s := cryptobyte.String(enc)
			var t time.Time
			ok := s.ReadASN1GeneralizedTime(&t)
			bs := cryptobyte.String(ref.TLV(3, []byte{0}, fx.Blocks))
			var v asn1.BitString
			ok2 := bs.ReadASN1BitString(&v)
			var n, def big.Int
			s = cryptobyte.String(ref.TLV(0xa0, ref.DERInt(fx.Ints[0])))
			ok3 := s.ReadOptionalASN1Integer(&n, cbasn1.Tag(0).Constructed().ContextSpecific(), num(3))
			ok4 := s.ReadOptionalASN1Integer(&def, cbasn1.Tag(0).Constructed().ContextSpecific(), fx.Ints[1])
			var e int
			s = cryptobyte.String([]byte{10, 1, 5, 1, 1, 0})
			ok5 := s.ReadASN1Enum(&e) && s.PeekASN1Tag(cbasn1.BOOLEAN) && s.SkipASN1(cbasn1.BOOLEAN) && s.SkipOptionalASN1(cbasn1.NULL)
			var u8 uint8
			var u16 uint16
			var u32, u24 uint32
			var l, elt cryptobyte.String
			var tag cbasn1.Tag
			s = cryptobyte.String(fx.Certs[r.IntN(len(fx.Certs))])
			ok6 := s.ReadUint8(&u8) && s.ReadUint16(&u16) && s.ReadUint24(&u24) && s.ReadUint32(&u32) && s.Skip(1)
			s = cryptobyte.String(fx.DER)
			ok7 := s.ReadAnyASN1(&l, &tag) && l.ReadAnyASN1Element(&elt, &tag)
			s = cryptobyte.String(fx.Msg)
			ok8 := s.ReadUint8LengthPrefixed(&l)
			var p []byte
			ok9 := s.ReadBytes(&p, 1)
			return digest(t.Unix(), ok, v.Bytes, v.BitLength, ok2, &n, ok3, &def, ok4, e, ok5, int(u8), int(u16), int(u24), int(u32), ok6, int(tag), []byte(elt), ok7, ok8, p, ok9), []any{&n, &def}
		}},
		&anOp{"repeated request verification", 2, func(fx *Fx, r *mrand.Rand) (string, []any) {
			i := r.IntN(len(fx.Reqs))
			ok, err := cert.VerifyDERCSRSign(fx.Reqs[i], fx.ID[0])
			q, err2 := cert.ParseCertificateRequest(fx.Reqs[i])
			if err2 != nil {
				return digest(ok, err, err2), nil
			}
			t := *fx.Template
			cert.FillCertificateTemplateByCSR(&t, q)
			info, err3 := cert.CreateCertificateInfo(&t, fx.Parent, q)
			if err3 != nil {
				return digest(ok, err, err3), nil
			}
			der, err4 := cert.CreateCertificate(info, fx.SigBytes)
			return digest(ok, err, der, err4), []any{der}
		}},
	)
}

type opValue []byte

func (v opValue) Marshal(b *cryptobyte.Builder) error {
	if v == nil {
		return fmt.Errorf("no value")
	}
	b.AddBytes(v)
	return nil
}

// perform runs an operation, turning a panic into a digest.
func (o *anOp) perform(fx *Fx, r *mrand.Rand) (d string, res []any) {
	defer func() {
		if p := recover(); p != nil {
			d, res = fmt.Sprintf("panic: %v", p), nil
		}
	}()
	return o.run(fx, r)
}
