package ref

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
)

func unhex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}

// SelfTest checks the oracle itself against the published examples and its
// own slow path; a non-nil error means no verdict of this harness counts.
func SelfTest() error {
	eq := func(name string, got []byte, want string) error {
		if !bytes.Equal(got, unhex(want)) {
			return fmt.Errorf("oracle %s: %x, want %s", name, got, want)
		}
		return nil
	}
	var errs []error
	chk := func(e error) {
		if e != nil {
			errs = append(errs, e)
		}
	}
	chk(eq("sm3 abc", SM3([]byte("abc")), "66c7f0f462eeedd9d1f2d46bdc10e4e24167c4875cf2f7a2297da02b8f4ba8e0"))
	chk(eq("sm3 abcd*16", SM3(bytes.Repeat([]byte("abcd"), 16)), "debe9ff92275b8a138604889c18e5a4d6fdb70e5387e5765293dcba39c0c5732"))
	k := unhex("0123456789abcdeffedcba9876543210")
	rk := SM4Keys(k)
	chk(eq("sm4", SM4Block(&rk, k, false), "681edf34d206965e86b3e94f536e4246"))
	chk(eq("sm4 dec", SM4Block(&rk, unhex("681edf34d206965e86b3e94f536e4246"), true), "0123456789abcdeffedcba9876543210"))
	b := k
	for i := 0; i < 10000; i++ {
		b = SM4Block(&rk, b, false)
	}
	for i := 0; i < 10000; i++ {
		b = SM4Block(&rk, b, true)
	}
	chk(eq("sm4 chain", b, "0123456789abcdeffedcba9876543210"))
	// GB/T 32918.5 signature example
	d := hexInt("3945208F7B2144B13F36E38AC6D39F95889393692860B51A42FB81EF4DF7C5B8")
	kk := hexInt("59276E27D506861A16680F3AD9C02DCCEF3CC1FA3CDBE4CE6D54B80DEAC1BC21")
	pub := SM2.MulG(d)
	e := SM2.E(pub, nil, []byte("message digest"))
	r, s, ok := SM2.SignK(d, e, kk)
	if !ok {
		return fmt.Errorf("oracle sign")
	}
	chk(eq("sm2 r", B32(r), "F5A03B0648D2C4630EEAC513E1BB81A15944DA3827D5B74143AC7EACEEE720B3"))
	chk(eq("sm2 s", B32(s), "B1B6AA29DF212FD8763182BC0D421CA1BB9038FD1F7F42D4840B69C485BBC1AA"))
	if !SM2.Verify(pub, nil, []byte("message digest"), r, s) || SM2.Verify(pub, nil, []byte("message digesu"), r, s) {
		chk(fmt.Errorf("oracle verify"))
	}
	if SM2.Nonce(d, r, s).Cmp(kk) != 0 {
		chk(fmt.Errorf("oracle nonce"))
	}
	// GB/T 32918.5 encryption example
	c1, c2, c3, _ := SM2.EncryptK(pub, []byte("encryption standard"), kk)
	chk(eq("sm2 c1", c1, "0404EBFC718E8D1798620432268E77FEB6415E2EDE0E073C0F4F640ECD2E149A73E858F9D81E5430A57B36DAAB8F950A3C64E6EE6A63094D99283AFF767E124DF0"))
	chk(eq("sm2 c2", c2, "21886CA989CA9C7D58087307CA93092D651EFA"))
	chk(eq("sm2 c3", c3, "59983C18F809E262923C53AEC295D30383B54E39D609D160AFCB1908D0BD8766"))
	for _, o := range []bool{false, true} {
		m, err := SM2.Decrypt(d, Join(c1, c2, c3, o), o)
		if err != nil || string(m) != "encryption standard" {
			chk(fmt.Errorf("oracle decrypt"))
		}
	}
	// GB/T 32918.5 key exchange example
	da := hexInt("81EB26E941BB5AF16DF116495F90695272AE2CD63D6C4AE1678418BE48230029")
	db := hexInt("785129917D45A9EA5437A59356B82338EAADDA6CEB199088F14AE10DEFA229B5")
	ra := hexInt("D4DE15474DB74D06491C440D305E012400990F3E390C7E87153C12DB2EA60BB3")
	rb := hexInt("7E07124814B309489125EAED101113164EBF0F3458C5BD88335C1F9D596243D6")
	for _, init := range []bool{true, false} {
		x, y, rx, ry := da, db, ra, rb
		if !init {
			x, y, rx, ry = db, da, rb, ra
		}
		res, err := SM2.KX(init, 128, x, rx, DefaultID, SM2.MulG(y), SM2.MulG(ry), DefaultID)
		if err != nil {
			return err
		}
		chk(eq("kx key", res.Key, "6C89347354DE2484C60B4AB1FDE4C6E5"))
		chk(eq("kx s1", res.S1, "D3A0FE15DEE185CEAE907A6B595CC32A266ED7B3367E9983A896DC32FA20F8EB"))
		chk(eq("kx s2", res.S2, "18C7894B3816DF16CF07B05C5EC0BEF5D655D58F779CC1B400A4F3884644DB88"))
	}
	// fast arithmetic against affine arithmetic
	x := new(big.Int).SetBytes(SM3([]byte("seed")))
	for i := 0; i < 4; i++ {
		x = new(big.Int).SetBytes(SM3(B32(x)))
		p := SM2.MulSlow(SM2.G, x)
		y := new(big.Int).SetBytes(SM3(B32(x), []byte{1}))
		if !SM2.Eq(p, SM2.MulG(x)) || !SM2.Eq(SM2.MulSlow(p, y), SM2.Mul(p, y)) || !SM2.On(p) {
			chk(fmt.Errorf("oracle multiplication"))
		}
	}
	if !SM2.MulG(SM2.N).Inf || !SM2.Mul(pub, SM2.N).Inf || !SM2.MulG(new(big.Int)).Inf {
		chk(fmt.Errorf("oracle order"))
	}
	for _, p := range []int64{67, 101, 131, 251} {
		c := Toy(p, 0)
		if c == nil {
			chk(fmt.Errorf("no toy curve over %d", p))
			continue
		}
		if !c.On(c.G) || !c.MulSlow(c.G, c.N).Inf {
			chk(fmt.Errorf("toy curve over %d", p))
		}
	}
	for _, v := range []int64{0, 1, -1, 127, 128, -128, -129, 255, 256, -256, -32768, 32768} {
		z := big.NewInt(v)
		w, err := IntFrom(IntBytes(z))
		if err != nil || w.Cmp(z) != 0 {
			chk(fmt.Errorf("oracle integer codec %d", v))
		}
	}
	if len(errs) > 0 {
		return errs[0]
	}
	return nil
}
