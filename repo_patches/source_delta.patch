From 60e7e7e176d64c8352aee15f693f0b12d555c367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:43 +0000
Subject: [PATCH 01/37] fix: sm3: Sum finalised the live digest, so later
 Write/Sum calls returned wrong hashes

---
 sm3/sm3.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sm3/sm3.go b/sm3/sm3.go
index 141a4e7..acf58a3 100644
--- a/sm3/sm3.go
+++ b/sm3/sm3.go
@@ -39,7 +39,8 @@ func New() hash.Hash {
 }
 
 func (digest *sm3Digest) Sum(b []byte) []byte {
-	d1 := digest
+	// work on a copy so that the caller can keep writing and summing
+	d1 := *digest
 	h := d1.checkSum()
 	return append(b, h[:]...)
 }
-- 
2.43.0


From 404daca4ad8cab099a181ed0cf2ea11408e32a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:44 +0000
Subject: [PATCH 02/37] fix: sm3: writing an empty slice, and so hashing the
 empty message, panicked

---
 sm3/sm3.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sm3/sm3.go b/sm3/sm3.go
index acf58a3..145b9b0 100644
--- a/sm3/sm3.go
+++ b/sm3/sm3.go
@@ -87,7 +87,6 @@ func (digest *sm3Digest) Reset() {
 }
 
 func (digest *sm3Digest) Write(p []byte) (n int, err error) {
-	_ = p[0]
 	inLen := len(p)
 
 	i := 0
-- 
2.43.0


From a16cc7f53c8c4f5d09c156b06cd96b3ef3d13a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:45 +0000
Subject: [PATCH 03/37] fix: sm2: key exchange panicked for keys longer than
 128 bits

---
 sm2/keyexchange.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sm2/keyexchange.go b/sm2/keyexchange.go
index 66ae995..45e16f5 100644
--- a/sm2/keyexchange.go
+++ b/sm2/keyexchange.go
@@ -44,8 +44,8 @@ func calculateU(w int, selfStaticPriv *PrivateKey, selfEphemeralPriv *PrivateKey
 
 func kdfForExch(digest hash.Hash, ux, uy *big.Int, za, zb []byte, keyBits int) []byte {
 	bufSize := 4
-	if bufSize < digest.BlockSize() {
-		bufSize = digest.BlockSize()
+	if bufSize < digest.Size() {
+		bufSize = digest.Size()
 	}
 	buf := make([]byte, bufSize)
 
@@ -68,6 +68,9 @@ func kdfForExch(digest hash.Hash, ux, uy *big.Int, za, zb []byte, keyBits int) [
 		copy(buf[:bufSize], tmp[:bufSize])
 
 		copyLen := rvLen - off
+		if copyLen > digest.Size() {
+			copyLen = digest.Size()
+		}
 		copy(rv[off:off+copyLen], buf[:copyLen])
 		off += copyLen
 	}
-- 
2.43.0


From 9874b8ad65565e3fc7cff3828c308c8acf5f44bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:46 +0000
Subject: [PATCH 04/37] fix: sm3: BlockSize reported 16 instead of 64 bytes,
 which made HMAC-SM3 wrong

---
 sm3/sm3.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sm3/sm3.go b/sm3/sm3.go
index 145b9b0..81a8b28 100644
--- a/sm3/sm3.go
+++ b/sm3/sm3.go
@@ -9,7 +9,9 @@ import (
 
 const (
 	DigestLength = 32
-	BlockSize    = 16
+	BlockSize    = 64
+
+	blockWords = BlockSize / 4
 )
 
 var gT = []uint32{
@@ -24,7 +26,7 @@ var gT = []uint32{
 
 type sm3Digest struct {
 	v         [DigestLength / 4]uint32
-	inWords   [BlockSize]uint32
+	inWords   [blockWords]uint32
 	xOff      int32
 	w         [68]uint32
 	xBuf      [4]byte
@@ -227,14 +229,14 @@ func (digest *sm3Digest) processWord(in []byte, inOff int32) {
 }
 
 func (digest *sm3Digest) processLength(bitLength int64) {
-	if digest.xOff > (BlockSize - 2) {
+	if digest.xOff > (blockWords - 2) {
 		digest.inWords[digest.xOff] = 0
 		digest.xOff++
 
 		digest.processBlock()
 	}
 
-	for ; digest.xOff < (BlockSize - 2); digest.xOff++ {
+	for ; digest.xOff < (blockWords - 2); digest.xOff++ {
 		digest.inWords[digest.xOff] = 0
 	}
 
-- 
2.43.0


From 3e8be900a25199e7e1ba2edc58c8075a109fe70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:47 +0000
Subject: [PATCH 05/37] fix: sm3: a single write of 2 GiB or more overflowed
 the int32 offset and panicked

---
 sm3/sm3.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sm3/sm3.go b/sm3/sm3.go
index 81a8b28..8e59818 100644
--- a/sm3/sm3.go
+++ b/sm3/sm3.go
@@ -107,7 +107,7 @@ func (digest *sm3Digest) Write(p []byte) (n int, err error) {
 
 	limit := ((inLen - i) & ^3) + i
 	for ; i < limit; i += 4 {
-		digest.processWord(p, int32(i))
+		digest.processWord(p, i)
 	}
 
 	for i < inLen {
@@ -217,7 +217,7 @@ func (digest *sm3Digest) processBlock() {
 	digest.xOff = 0
 }
 
-func (digest *sm3Digest) processWord(in []byte, inOff int32) {
+func (digest *sm3Digest) processWord(in []byte, inOff int) {
 	n := binary.BigEndian.Uint32(in[inOff : inOff+4])
 
 	digest.inWords[digest.xOff] = n
-- 
2.43.0


From 171baa6fddece5ed45bbc91d42e680d8a8c52666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:48 +0000
Subject: [PATCH 06/37] fix: sm2: key exchange hashed coordinates with leading
 zero bytes unpadded

---
 sm2/keyexchange.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/sm2/keyexchange.go b/sm2/keyexchange.go
index 45e16f5..3cb365b 100644
--- a/sm2/keyexchange.go
+++ b/sm2/keyexchange.go
@@ -51,8 +51,8 @@ func kdfForExch(digest hash.Hash, ux, uy *big.Int, za, zb []byte, keyBits int) [
 
 	rv := make([]byte, (keyBits+7)/8)
 	rvLen := len(rv)
-	uxBytes := ux.Bytes()
-	uyBytes := uy.Bytes()
+	uxBytes := bigIntTo32Bytes(ux)
+	uyBytes := bigIntTo32Bytes(uy)
 	off := 0
 	ct := uint32(0)
 	for off < rvLen {
@@ -79,20 +79,20 @@ func kdfForExch(digest hash.Hash, ux, uy *big.Int, za, zb []byte, keyBits int) [
 
 func calculateInnerHash(digest hash.Hash, ux *big.Int, za, zb []byte, p1x, p1y *big.Int, p2x, p2y *big.Int) []byte {
 	digest.Reset()
-	digest.Write(ux.Bytes())
+	digest.Write(bigIntTo32Bytes(ux))
 	digest.Write(za)
 	digest.Write(zb)
-	digest.Write(p1x.Bytes())
-	digest.Write(p1y.Bytes())
-	digest.Write(p2x.Bytes())
-	digest.Write(p2y.Bytes())
+	digest.Write(bigIntTo32Bytes(p1x))
+	digest.Write(bigIntTo32Bytes(p1y))
+	digest.Write(bigIntTo32Bytes(p2x))
+	digest.Write(bigIntTo32Bytes(p2y))
 	return digest.Sum(nil)
 }
 
 func s1(digest hash.Hash, uy *big.Int, innerHash []byte) []byte {
 	digest.Reset()
 	digest.Write([]byte{0x02})
-	digest.Write(uy.Bytes())
+	digest.Write(bigIntTo32Bytes(uy))
 	digest.Write(innerHash)
 	return digest.Sum(nil)
 }
@@ -100,7 +100,7 @@ func s1(digest hash.Hash, uy *big.Int, innerHash []byte) []byte {
 func s2(digest hash.Hash, uy *big.Int, innerHash []byte) []byte {
 	digest.Reset()
 	digest.Write([]byte{0x03})
-	digest.Write(uy.Bytes())
+	digest.Write(bigIntTo32Bytes(uy))
 	digest.Write(innerHash)
 	return digest.Sum(nil)
 }
-- 
2.43.0


From 8b2d408ea9579163cc14122efaa4b04e47c390b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:38 +0000
Subject: [PATCH 07/37] fix: sm2: encrypting an empty message never returned

---
 sm2/sm2.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index f958e88..3307d7e 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -260,6 +260,9 @@ func notEncrypted(encData []byte, in []byte) bool {
 }
 
 func Encrypt(pub *PublicKey, in []byte, cipherTextType Sm2CipherTextType) ([]byte, error) {
+	if len(in) == 0 {
+		return nil, errors.New("plain text must not be empty")
+	}
 	c2 := make([]byte, len(in))
 	copy(c2, in)
 	var c1 []byte
-- 
2.43.0


From 14022c325efb2a8df66f5c83c2f371d512df0212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:39 +0000
Subject: [PATCH 08/37] fix: sm2: decrypting a truncated cipher text or one
 whose C1 is off the curve panicked

---
 sm2/sm2.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 3307d7e..c22c7bb 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -310,9 +310,15 @@ func Encrypt(pub *PublicKey, in []byte, cipherTextType Sm2CipherTextType) ([]byt
 
 func Decrypt(priv *PrivateKey, in []byte, cipherTextType Sm2CipherTextType) ([]byte, error) {
 	c1Len := ((priv.Curve.BitSize+7)>>3)*2 + 1
+	if len(in) < c1Len+sm3.DigestLength {
+		return nil, errors.New("cipher text too short")
+	}
 	c1 := make([]byte, c1Len)
 	copy(c1, in[:c1Len])
 	c1x, c1y := elliptic.Unmarshal(priv.Curve, c1)
+	if c1x == nil {
+		return nil, errors.New("C1 is not a point on the curve")
+	}
 	sx, sy := priv.Curve.ScalarMult(c1x, c1y, sm2H.Bytes())
 	if util.IsEcPointInfinity(sx, sy) {
 		return nil, errors.New("[h]C1 at infinity")
-- 
2.43.0


From f9cbd157a195b67826fb13bec71f389fb6a50c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:40 +0000
Subject: [PATCH 09/37] fix: sm2: public keys off the curve were accepted and
 made Encrypt and Verify panic

---
 sm2/sm2.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index c22c7bb..918f9eb 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -119,6 +119,9 @@ func RawBytesToPublicKey(bytes []byte) (*PublicKey, error) {
 	publicKey.Curve = sm2P256V1
 	publicKey.X = new(big.Int).SetBytes(bytes[:KeyBytes])
 	publicKey.Y = new(big.Int).SetBytes(bytes[KeyBytes:])
+	if !publicKey.Curve.IsOnCurve(publicKey.X, publicKey.Y) {
+		return nil, errors.New("public key is not a point on the curve")
+	}
 	return publicKey, nil
 }
 
@@ -263,6 +266,9 @@ func Encrypt(pub *PublicKey, in []byte, cipherTextType Sm2CipherTextType) ([]byt
 	if len(in) == 0 {
 		return nil, errors.New("plain text must not be empty")
 	}
+	if !pub.Curve.IsOnCurve(pub.X, pub.Y) {
+		return nil, errors.New("public key is not a point on the curve")
+	}
 	c2 := make([]byte, len(in))
 	copy(c2, in)
 	var c1 []byte
@@ -558,6 +564,10 @@ func VerifyByRS(pub *PublicKey, userId []byte, src []byte, r, s *big.Int) bool {
 		return false
 	}
 
+	if !pub.Curve.IsOnCurve(pub.X, pub.Y) {
+		return false
+	}
+
 	digest := sm3.New()
 	if userId == nil {
 		userId = sm2SignDefaultUserId
-- 
2.43.0


From fc586c65e5a5ae6c743a76b6f44760eca1ef623b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:42 +0000
Subject: [PATCH 10/37] fix: sm2: private keys outside [1, n-2] were accepted,
 and signing with n-1 never returned

---
 sm2/sm2.go | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 918f9eb..811c04f 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -97,13 +97,21 @@ func GetSm2P256V1() P256V1Curve {
 }
 
 func GenerateKey(rand io.Reader) (*PrivateKey, *PublicKey, error) {
-	priv, x, y, err := elliptic.GenerateKey(sm2P256V1, rand)
-	if err != nil {
-		return nil, nil, err
-	}
 	privateKey := new(PrivateKey)
 	privateKey.Curve = sm2P256V1
-	privateKey.D = new(big.Int).SetBytes(priv)
+	var x, y *big.Int
+	for {
+		var priv []byte
+		var err error
+		priv, x, y, err = elliptic.GenerateKey(sm2P256V1, rand)
+		if err != nil {
+			return nil, nil, err
+		}
+		privateKey.D = new(big.Int).SetBytes(priv)
+		if isValidD(privateKey.D) {
+			break
+		}
+	}
 	publicKey := new(PublicKey)
 	publicKey.Curve = sm2P256V1
 	publicKey.X = x
@@ -125,6 +133,12 @@ func RawBytesToPublicKey(bytes []byte) (*PublicKey, error) {
 	return publicKey, nil
 }
 
+// GB/T 32918规定私钥d的取值范围是[1, n-2]
+func isValidD(d *big.Int) bool {
+	max := util.Sub(sm2P256V1.N, new(big.Int).SetInt64(2))
+	return d.Sign() > 0 && d.Cmp(max) <= 0
+}
+
 func RawBytesToPrivateKey(bytes []byte) (*PrivateKey, error) {
 	if len(bytes) != KeyBytes {
 		return nil, errors.New(fmt.Sprintf("Private key raw bytes length must be %d", KeyBytes))
@@ -132,6 +146,9 @@ func RawBytesToPrivateKey(bytes []byte) (*PrivateKey, error) {
 	privateKey := new(PrivateKey)
 	privateKey.Curve = sm2P256V1
 	privateKey.D = new(big.Int).SetBytes(bytes)
+	if !isValidD(privateKey.D) {
+		return nil, errors.New("private key is out of range [1, n-2]")
+	}
 	return privateKey, nil
 }
 
@@ -501,6 +518,11 @@ func UnmarshalSign(sign []byte) (r, s *big.Int, err error) {
 }
 
 func SignToRS(priv *PrivateKey, userId []byte, in []byte) (r, s *big.Int, err error) {
+	dPlus1 := util.Add(priv.D, new(big.Int).SetInt64(1))
+	if util.Mod(dPlus1, priv.Curve.N).Sign() == 0 {
+		return nil, nil, errors.New("private key is out of range [1, n-2]")
+	}
+
 	digest := sm3.New()
 	pubX, pubY := priv.Curve.ScalarBaseMult(priv.D.Bytes())
 	if userId == nil {
-- 
2.43.0


From 755775d095c1353b7798d8397fb148e55969b5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:43 +0000
Subject: [PATCH 11/37] fix: sm2: MarshalCipher and UnmarshalCipher panicked
 on, or silently altered, malformed input

---
 sm2/sm2.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 811c04f..c1c61d9 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -382,6 +382,12 @@ func MarshalCipher(in []byte, cipherTextType Sm2CipherTextType) ([]byte, error)
 	c1x := make([]byte, byteLen)
 	c1y := make([]byte, byteLen)
 	c2Len := len(in) - (1 + byteLen*2) - sm3.DigestLength
+	if c2Len < 0 {
+		return nil, errors.New("cipher text too short")
+	}
+	if in[0] != UnCompress {
+		return nil, errors.New("C1 is not an uncompressed point")
+	}
 	c2 := make([]byte, c2Len)
 	c3 := make([]byte, sm3.DigestLength)
 	pos := 1
@@ -416,6 +422,18 @@ func MarshalCipher(in []byte, cipherTextType Sm2CipherTextType) ([]byte, error)
 	}
 }
 
+// 检查解码结果：坐标必须能用32字节表示，C3长度必须等于摘要长度，且in必须正好是cipher的DER编码
+func isCipherDer(in []byte, cipher interface{}, x, y *big.Int, c3 []byte) bool {
+	if x.Sign() < 0 || x.BitLen() > BitSize || y.Sign() < 0 || y.BitLen() > BitSize {
+		return false
+	}
+	if len(c3) != sm3.DigestLength {
+		return false
+	}
+	der, err := asn1.Marshal(cipher)
+	return err == nil && bytes.Equal(der, in)
+}
+
 func UnmarshalCipher(in []byte, cipherTextType Sm2CipherTextType) (out []byte, err error) {
 	if cipherTextType == C1C2C3 {
 		cipher := new(sm2CipherC1C2C3)
@@ -423,6 +441,9 @@ func UnmarshalCipher(in []byte, cipherTextType Sm2CipherTextType) (out []byte, e
 		if err != nil {
 			return nil, err
 		}
+		if !isCipherDer(in, *cipher, cipher.X, cipher.Y, cipher.C3) {
+			return nil, errors.New("invalid cipher text encoding")
+		}
 		c1xBytes := bigIntTo32Bytes(cipher.X)
 		c1yBytes := bigIntTo32Bytes(cipher.Y)
 		c1xLen := len(c1xBytes)
@@ -447,6 +468,9 @@ func UnmarshalCipher(in []byte, cipherTextType Sm2CipherTextType) (out []byte, e
 		if err != nil {
 			return nil, err
 		}
+		if !isCipherDer(in, *cipher, cipher.X, cipher.Y, cipher.C3) {
+			return nil, errors.New("invalid cipher text encoding")
+		}
 		c1xBytes := bigIntTo32Bytes(cipher.X)
 		c1yBytes := bigIntTo32Bytes(cipher.Y)
 		c1xLen := len(c1xBytes)
-- 
2.43.0


From 2892ce1e1901075b999fe4a321f6cc9da3f214d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:44 +0000
Subject: [PATCH 12/37] fix: sm2: signatures with trailing or extra data were
 accepted

---
 sm2/sm2.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index c1c61d9..e250a25 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -538,6 +538,13 @@ func UnmarshalSign(sign []byte) (r, s *big.Int, err error) {
 	if err != nil {
 		return nil, nil, err
 	}
+	der, err := MarshalSign(sm2Sign.R, sm2Sign.S)
+	if err != nil {
+		return nil, nil, err
+	}
+	if !bytes.Equal(der, sign) {
+		return nil, nil, errors.New("signature is not DER encoded")
+	}
 	return sm2Sign.R, sm2Sign.S, nil
 }
 
-- 
2.43.0


From ace4e3305469e2b5007e93f21760b0af506cb902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:45 +0000
Subject: [PATCH 13/37] fix: sm2: user ids of 8192 bytes or more overflowed the
 16 bit length hashed into Z

---
 sm2/keyexchange.go |  7 +++++++
 sm2/sm2.go         | 14 +++++++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/sm2/keyexchange.go b/sm2/keyexchange.go
index 3cb365b..d1a0ef9 100644
--- a/sm2/keyexchange.go
+++ b/sm2/keyexchange.go
@@ -118,6 +118,13 @@ func CalculateKeyWithConfirmation(initiator bool, keyBits int, confirmationTag [
 		return nil, errors.New("if initiating, confirmationTag must be set")
 	}
 
+	if err := checkUserId(selfId); err != nil {
+		return nil, err
+	}
+	if err := checkUserId(otherId); err != nil {
+		return nil, err
+	}
+
 	selfStaticPub := CalculatePubKey(selfStaticPriv)
 	digest := sm3.New()
 	za := getZ(digest, &selfStaticPriv.Curve, selfStaticPub.X, selfStaticPub.Y, selfId)
diff --git a/sm2/sm2.go b/sm2/sm2.go
index e250a25..ce692b3 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -494,6 +494,14 @@ func UnmarshalCipher(in []byte, cipherTextType Sm2CipherTextType) (out []byte, e
 	}
 }
 
+// 用户ID的比特长度用两个字节表示，所以用户ID不能超过8191字节
+func checkUserId(userId []byte) error {
+	if len(userId)*8 > 0xFFFF {
+		return errors.New("user id must be shorter than 8192 bytes")
+	}
+	return nil
+}
+
 func getZ(digest hash.Hash, curve *P256V1Curve, pubX *big.Int, pubY *big.Int, userId []byte) []byte {
 	digest.Reset()
 
@@ -554,6 +562,10 @@ func SignToRS(priv *PrivateKey, userId []byte, in []byte) (r, s *big.Int, err er
 		return nil, nil, errors.New("private key is out of range [1, n-2]")
 	}
 
+	if err = checkUserId(userId); err != nil {
+		return nil, nil, err
+	}
+
 	digest := sm3.New()
 	pubX, pubY := priv.Curve.ScalarBaseMult(priv.D.Bytes())
 	if userId == nil {
@@ -617,7 +629,7 @@ func VerifyByRS(pub *PublicKey, userId []byte, src []byte, r, s *big.Int) bool {
 		return false
 	}
 
-	if !pub.Curve.IsOnCurve(pub.X, pub.Y) {
+	if !pub.Curve.IsOnCurve(pub.X, pub.Y) || checkUserId(userId) != nil {
 		return false
 	}
 
-- 
2.43.0


From c599dfbb140579aaa53e34ff118149710415b833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:46 +0000
Subject: [PATCH 14/37] fix: sm2: key exchange panicked on, or accepted, public
 keys off the curve or leading to infinity

---
 sm2/keyexchange.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sm2/keyexchange.go b/sm2/keyexchange.go
index d1a0ef9..777082f 100644
--- a/sm2/keyexchange.go
+++ b/sm2/keyexchange.go
@@ -118,6 +118,10 @@ func CalculateKeyWithConfirmation(initiator bool, keyBits int, confirmationTag [
 		return nil, errors.New("if initiating, confirmationTag must be set")
 	}
 
+	curve := selfStaticPriv.Curve
+	if !curve.IsOnCurve(otherStaticPub.X, otherStaticPub.Y) || !curve.IsOnCurve(otherEphemeralPub.X, otherEphemeralPub.Y) {
+		return nil, errors.New("public key is not a point on the curve")
+	}
 	if err := checkUserId(selfId); err != nil {
 		return nil, err
 	}
@@ -133,6 +137,9 @@ func CalculateKeyWithConfirmation(initiator bool, keyBits int, confirmationTag [
 	w := selfStaticPriv.Curve.BitSize/2 - 1
 	selfEphemeralPub := CalculatePubKey(selfEphemeralPriv)
 	ux, uy := calculateU(w, selfStaticPriv, selfEphemeralPriv, selfEphemeralPub, otherStaticPub, otherEphemeralPub)
+	if util.IsEcPointInfinity(ux, uy) {
+		return nil, errors.New("shared point is at infinity")
+	}
 	if initiator {
 		rv := kdfForExch(digest, ux, uy, za, zb, keyBits)
 		innerHash := calculateInnerHash(digest, ux, za, zb, selfEphemeralPub.X, selfEphemeralPub.Y,
-- 
2.43.0


From 777a235a78a5d354d67991f6f01bf18339392cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:47 +0000
Subject: [PATCH 15/37] fix: sm2: key exchange panicked for a negative key
 length

---
 sm2/keyexchange.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sm2/keyexchange.go b/sm2/keyexchange.go
index 777082f..2f2ac89 100644
--- a/sm2/keyexchange.go
+++ b/sm2/keyexchange.go
@@ -118,6 +118,9 @@ func CalculateKeyWithConfirmation(initiator bool, keyBits int, confirmationTag [
 		return nil, errors.New("if initiating, confirmationTag must be set")
 	}
 
+	if keyBits < 0 {
+		return nil, errors.New("keyBits must not be negative")
+	}
 	curve := selfStaticPriv.Curve
 	if !curve.IsOnCurve(otherStaticPub.X, otherStaticPub.Y) || !curve.IsOnCurve(otherEphemeralPub.X, otherEphemeralPub.Y) {
 		return nil, errors.New("public key is not a point on the curve")
-- 
2.43.0


From 20a53bedc2e831953cbbb2ab5bc659d822b30ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:22 +0000
Subject: [PATCH 16/37] fix: sm4: CBC functions panicked instead of returning
 an error for an IV of the wrong length

---
 sm4/sm4.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sm4/sm4.go b/sm4/sm4.go
index 872f716..0333f16 100644
--- a/sm4/sm4.go
+++ b/sm4/sm4.go
@@ -271,6 +271,9 @@ func CBCEncrypt(key, iv, plainText []byte) (cipherText []byte, err error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(iv) != BlockSize {
+		return nil, errors.New("IV length must equal block size")
+	}
 	encrypter := cipher.NewCBCEncrypter(c, iv)
 	cipherText = make([]byte, plainTextLen)
 	encrypter.CryptBlocks(cipherText, plainText)
@@ -289,6 +292,9 @@ func CBCDecrypt(key, iv, cipherText []byte) (plainText []byte, err error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(iv) != BlockSize {
+		return nil, errors.New("IV length must equal block size")
+	}
 	decrypter := cipher.NewCBCDecrypter(c, iv)
 	plainText = make([]byte, len(cipherText))
 	decrypter.CryptBlocks(plainText, cipherText)
-- 
2.43.0


From 61df6d7a5e71f8c92500f7ed5e4dde0afa2f97ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:23 +0000
Subject: [PATCH 17/37] fix: util: padding overwrote the caller's memory behind
 a slice with spare capacity

---
 util/padding.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/util/padding.go b/util/padding.go
index a1862c7..d5e09f1 100644
--- a/util/padding.go
+++ b/util/padding.go
@@ -3,9 +3,10 @@ package util
 import "bytes"
 
 func PKCS5Padding(src []byte, blockSize int) []byte {
-	padding := blockSize - len(src)%blockSize
+	length := len(src)
+	padding := blockSize - length%blockSize
 	padtext := bytes.Repeat([]byte{byte(padding)}, padding)
-	return append(src, padtext...)
+	return append(src[:length:length], padtext...)
 }
 
 func PKCS5UnPadding(src []byte) []byte {
@@ -15,9 +16,10 @@ func PKCS5UnPadding(src []byte) []byte {
 }
 
 func ZeroPadding(src []byte, blockSize int) []byte {
-	padding := blockSize - len(src)%blockSize
+	length := len(src)
+	padding := blockSize - length%blockSize
 	padtext := bytes.Repeat([]byte{0}, padding)
-	return append(src, padtext...)
+	return append(src[:length:length], padtext...)
 }
 
 // UnZeroPadding
-- 
2.43.0


From fcc53daafdc6fe76c4ffba9426d4ac9fe8108f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:24 +0000
Subject: [PATCH 18/37] fix: util: PKCS5UnPadding panicked on empty or badly
 padded input

---
 util/padding.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/util/padding.go b/util/padding.go
index d5e09f1..7673e1d 100644
--- a/util/padding.go
+++ b/util/padding.go
@@ -11,7 +11,13 @@ func PKCS5Padding(src []byte, blockSize int) []byte {
 
 func PKCS5UnPadding(src []byte) []byte {
 	length := len(src)
+	if length == 0 {
+		return nil
+	}
 	unpadding := int(src[length-1])
+	if unpadding > length {
+		return nil
+	}
 	return src[:(length - unpadding)]
 }
 
-- 
2.43.0


From 5476ff35bc37303c0602dd2a21e64942dd1a683e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:26 +0000
Subject: [PATCH 19/37] fix: cryptobyte: AddASN1BigInt panicked for -1

---
 cryptobyte/asn1.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptobyte/asn1.go b/cryptobyte/asn1.go
index 431d14e..e695b09 100644
--- a/cryptobyte/asn1.go
+++ b/cryptobyte/asn1.go
@@ -75,7 +75,7 @@ func (b *Builder) AddASN1BigInt(n *big.Int) {
 			for i := range bytes {
 				bytes[i] ^= 0xff
 			}
-			if bytes[0]&0x80 == 0 {
+			if len(bytes) == 0 || bytes[0]&0x80 == 0 {
 				c.add(0xff)
 			}
 			c.add(bytes...)
-- 
2.43.0


From dbf2a90cc9c53a628758bbd600d8f73c3cf067ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:27 +0000
Subject: [PATCH 20/37] fix: cryptobyte: reading an ASN.1 BOOLEAN expected an
 INTEGER, and an optional one read past it

---
 cryptobyte/asn1.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/cryptobyte/asn1.go b/cryptobyte/asn1.go
index e695b09..c8bc322 100644
--- a/cryptobyte/asn1.go
+++ b/cryptobyte/asn1.go
@@ -226,7 +226,7 @@ func (b *Builder) AddASN1(tag asn1.Tag, f BuilderContinuation) {
 
 func (s *String) ReadASN1Boolean(out *bool) bool {
 	var bytes String
-	if !s.ReadASN1(&bytes, asn1.INTEGER) || len(bytes) != 1 {
+	if !s.ReadASN1(&bytes, asn1.BOOLEAN) || len(bytes) != 1 {
 		return false
 	}
 
@@ -645,13 +645,7 @@ func (s *String) ReadOptionalASN1OctetString(out *[]byte, outPresent *bool, tag
 // ReadOptionalASN1Boolean sets *out to the value of the next ASN.1 BOOLEAN or,
 // if the next bytes are not an ASN.1 BOOLEAN, to the value of defaultValue.
 func (s *String) ReadOptionalASN1Boolean(out *bool, defaultValue bool) bool {
-	var present bool
-	var child String
-	if !s.ReadOptionalASN1(&child, &present, asn1.BOOLEAN) {
-		return false
-	}
-
-	if !present {
+	if !s.PeekASN1Tag(asn1.BOOLEAN) {
 		*out = defaultValue
 		return true
 	}
-- 
2.43.0


From 87d2637b78c9234e71736a4ec472202ff8482545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:28 +0000
Subject: [PATCH 21/37] fix: cryptobyte: reading or skipping a negative number
 of bytes panicked

---
 cryptobyte/string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptobyte/string.go b/cryptobyte/string.go
index db3d738..172c18c 100644
--- a/cryptobyte/string.go
+++ b/cryptobyte/string.go
@@ -24,7 +24,7 @@ type String []byte
 // read advances a String by n bytes and returns them. If less than n bytes
 // remain, it returns nil.
 func (s *String) read(n int) []byte {
-	if len(*s) < n {
+	if len(*s) < n || n < 0 {
 		return nil
 	}
 	v := (*s)[:n]
-- 
2.43.0


From fcd167a184602fc64165a6761c467f8cca5b329b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:29 +0000
Subject: [PATCH 22/37] fix: cryptobyte: OID arcs of 29 to 31 bits could be
 written but not read, and padded arcs were accepted

---
 cryptobyte/asn1.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cryptobyte/asn1.go b/cryptobyte/asn1.go
index c8bc322..4b9efe1 100644
--- a/cryptobyte/asn1.go
+++ b/cryptobyte/asn1.go
@@ -377,11 +377,16 @@ func (s *String) ReadASN1Enum(out *int) bool {
 func (s *String) readBase128Int(out *int) bool {
 	ret := 0
 	for i := 0; len(*s) > 0; i++ {
-		if i == 4 {
+		// at most 31 bits, whatever the size of int
+		if i == 5 || ret >= 1<<(31-7) {
 			return false
 		}
 		ret <<= 7
 		b := s.read(1)[0]
+		// ITU-T X.690, section 8.19.2: the leading octet must not be 0x80
+		if i == 0 && b == 0x80 {
+			return false
+		}
 		ret |= int(b & 0x7f)
 		if b&0x80 == 0 {
 			*out = ret
-- 
2.43.0


From 186b07c44eaed75ae4db96209faa72b8964d0d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:30 +0000
Subject: [PATCH 23/37] fix: cryptobyte: length-prefixed content was dropped
 from a fixed-size builder

---
 cryptobyte/builder.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/cryptobyte/builder.go b/cryptobyte/builder.go
index 29b4c76..2c31c04 100644
--- a/cryptobyte/builder.go
+++ b/cryptobyte/builder.go
@@ -268,9 +268,7 @@ func (b *Builder) flushChild() {
 		return
 	}
 
-	if !b.fixedSize {
-		b.result = child.result // In case child reallocated result.
-	}
+	b.result = child.result
 }
 
 func (b *Builder) add(bytes ...byte) {
-- 
2.43.0


From 2ec2181db0553f24fa18ce43cadfec6e95753f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:22 +0000
Subject: [PATCH 24/37] fix: cryptobyte: a fixed-size builder too small for a
 long ASN.1 length lost content without an error

---
 cryptobyte/builder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cryptobyte/builder.go b/cryptobyte/builder.go
index 2c31c04..25811c8 100644
--- a/cryptobyte/builder.go
+++ b/cryptobyte/builder.go
@@ -251,6 +251,10 @@ func (b *Builder) flushChild() {
 		extraBytes := int(lenLen - 1)
 		if extraBytes != 0 {
 			child.add(make([]byte, extraBytes)...)
+			if child.err != nil {
+				b.err = child.err
+				return
+			}
 			childStart := child.offset + child.pendingLenLen
 			copy(child.result[childStart+extraBytes:], child.result[childStart:])
 		}
-- 
2.43.0


From 80a577227bc4b7a0a9721fe4bca97b5af0db5c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:23 +0000
Subject: [PATCH 25/37] fix: cert: CreateCertificateRequest wrote the
 extensions into the caller's template

---
 sm2/cert/gmx509.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/sm2/cert/gmx509.go b/sm2/cert/gmx509.go
index f9fe844..2b3d834 100644
--- a/sm2/cert/gmx509.go
+++ b/sm2/cert/gmx509.go
@@ -96,8 +96,18 @@ func CreateCertificateRequest(template *x509.CertificateRequest, pub *sm2.Public
 	}
 	extensions = append(extensions, template.ExtraExtensions...)
 
+	// Make a copy of template.Attributes because we may alter it below.
 	var attributes []pkix.AttributeTypeAndValueSET
-	attributes = append(attributes, template.Attributes...)
+	for _, attr := range template.Attributes {
+		values := make([][]pkix.AttributeTypeAndValue, len(attr.Value))
+		for i, value := range attr.Value {
+			values[i] = value[:len(value):len(value)]
+		}
+		attributes = append(attributes, pkix.AttributeTypeAndValueSET{
+			Type:  attr.Type,
+			Value: values,
+		})
+	}
 
 	if len(extensions) > 0 {
 		// specifiedExtensions contains all the extensions that we
-- 
2.43.0


From 4220b9e78e5f236201f974e49aae2a3f5db41c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:24 +0000
Subject: [PATCH 26/37] fix: cert: VerifyCSRSign panicked for a request without
 an SM2 public key

---
 sm2/cert/gmx509.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sm2/cert/gmx509.go b/sm2/cert/gmx509.go
index 2b3d834..4a26032 100644
--- a/sm2/cert/gmx509.go
+++ b/sm2/cert/gmx509.go
@@ -544,7 +544,10 @@ func VerifyDERCSRSign(asn1Data []byte, userId []byte) (bool, error) {
 }
 
 func VerifyCSRSign(csr *x509.CertificateRequest, userId []byte) bool {
-	pub := csr.PublicKey.(*sm2.PublicKey)
+	pub, ok := csr.PublicKey.(*sm2.PublicKey)
+	if !ok || pub == nil {
+		return false
+	}
 	return sm2.Verify(pub, userId, csr.RawTBSCertificateRequest, csr.Signature)
 }
 
-- 
2.43.0


From d4399193a99be9a29dbf55b4f404b35eea188b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:25 +0000
Subject: [PATCH 27/37] fix: cert: an unknown extended key usage in a template
 panicked instead of returning an error

---
 sm2/cert/gmx509.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm2/cert/gmx509.go b/sm2/cert/gmx509.go
index 4a26032..9295caf 100644
--- a/sm2/cert/gmx509.go
+++ b/sm2/cert/gmx509.go
@@ -736,7 +736,7 @@ func buildExtensions(template *x509.Certificate, subjectIsEmpty bool, authorityK
 			if oid, ok := oidFromExtKeyUsage(u); ok {
 				oids = append(oids, oid)
 			} else {
-				panic("internal error")
+				return nil, errors.New("x509: unknown extended key usage")
 			}
 		}
 
-- 
2.43.0


From 4cc34ca1b82ca3730574766f7b248848362d727e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:25 +0000
Subject: [PATCH 28/37] fix: cert: a certificate whose signed algorithm differs
 from the outer one was accepted

---
 sm2/cert/gmx509.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sm2/cert/gmx509.go b/sm2/cert/gmx509.go
index 9295caf..9844b97 100644
--- a/sm2/cert/gmx509.go
+++ b/sm2/cert/gmx509.go
@@ -1096,6 +1096,9 @@ func parseCertificate(in *certificate) (*x509.Certificate, error) {
 	if !oidSignatureSM3WithSM2.Equal(in.SignatureAlgorithm.Algorithm) {
 		return nil, errors.New("x509: illegal signature algorithm OID")
 	}
+	if !oidSignatureSM3WithSM2.Equal(in.TBSCertificate.SignatureAlgorithm.Algorithm) {
+		return nil, errors.New("x509: inner and outer signature algorithm identifiers don't match")
+	}
 	if !oidPublicKeyECDSA.Equal(in.TBSCertificate.PublicKey.Algorithm.Algorithm) {
 		return nil, errors.New("x509: illegal publick key algorithm OID")
 	}
-- 
2.43.0


From 4dd35104a45846df234fa76341e52a7e70d538dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:39 +0000
Subject: [PATCH 29/37] fix: cert: the critical flag of requested extensions
 was dropped from certificate requests

---
 sm2/cert/gmx509.go | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/sm2/cert/gmx509.go b/sm2/cert/gmx509.go
index 9844b97..c00e79a 100644
--- a/sm2/cert/gmx509.go
+++ b/sm2/cert/gmx509.go
@@ -109,6 +109,7 @@ func CreateCertificateRequest(template *x509.CertificateRequest, pub *sm2.Public
 		})
 	}
 
+	newExtensionRequest := false
 	if len(extensions) > 0 {
 		// specifiedExtensions contains all the extensions that we
 		// found specified via template.Attributes.
@@ -135,7 +136,8 @@ func CreateCertificateRequest(template *x509.CertificateRequest, pub *sm2.Public
 			}
 
 			atvs = append(atvs, pkix.AttributeTypeAndValue{
-				// There is no place for the critical flag in a CSR.
+				// There is no place for the critical flag in
+				// an AttributeTypeAndValue.
 				Type:  e.Id,
 				Value: e.Value,
 			})
@@ -153,15 +155,8 @@ func CreateCertificateRequest(template *x509.CertificateRequest, pub *sm2.Public
 			break
 		}
 
-		// Otherwise, add a new attribute for the extensions.
-		if !appended {
-			attributes = append(attributes, pkix.AttributeTypeAndValueSET{
-				Type: oidExtensionRequest,
-				Value: [][]pkix.AttributeTypeAndValue{
-					atvs,
-				},
-			})
-		}
+		// Otherwise, add a new attribute for the extensions, below.
+		newExtensionRequest = !appended
 	}
 
 	asn1Subject := template.RawSubject
@@ -176,6 +171,19 @@ func CreateCertificateRequest(template *x509.CertificateRequest, pub *sm2.Public
 	if err != nil {
 		return
 	}
+	if newExtensionRequest {
+		// An AttributeTypeAndValue has no place for the critical flag,
+		// so the attribute is built from the extensions themselves.
+		var rawAttribute asn1.RawValue
+		rawAttribute.FullBytes, err = asn1.Marshal(struct {
+			Type  asn1.ObjectIdentifier
+			Value [][]pkix.Extension `asn1:"set"`
+		}{oidExtensionRequest, [][]pkix.Extension{extensions}})
+		if err != nil {
+			return
+		}
+		rawAttributes = append(rawAttributes, rawAttribute)
+	}
 
 	tbsCSR := tbsCertificateRequest{
 		Version: 0, // PKCS #10, RFC 2986
-- 
2.43.0


From 0f920efb6ac1f434f1b67a1731b87c28c0b5523c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:40 +0000
Subject: [PATCH 30/37] fix: cert: a certificate without extensions carried an
 empty Extensions sequence

---
 sm2/cert/gmx509.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm2/cert/gmx509.go b/sm2/cert/gmx509.go
index c00e79a..d9a1fb3 100644
--- a/sm2/cert/gmx509.go
+++ b/sm2/cert/gmx509.go
@@ -992,7 +992,7 @@ type tbsCertificate struct {
 	PublicKey          publicKeyInfo
 	UniqueId           asn1.BitString   `asn1:"optional,tag:1"`
 	SubjectUniqueId    asn1.BitString   `asn1:"optional,tag:2"`
-	Extensions         []pkix.Extension `asn1:"optional,explicit,tag:3"`
+	Extensions         []pkix.Extension `asn1:"omitempty,optional,explicit,tag:3"`
 }
 
 type TBSCertificate tbsCertificate
-- 
2.43.0


From 11670528042572b3b525e7fe25d145c9a1a94a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:21 +0000
Subject: [PATCH 31/37] fix: encode GeneralizedTime in UTC as DER requires

---
 cryptobyte/asn1.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cryptobyte/asn1.go b/cryptobyte/asn1.go
index 4b9efe1..c128918 100644
--- a/cryptobyte/asn1.go
+++ b/cryptobyte/asn1.go
@@ -102,6 +102,8 @@ const generalizedTimeFormatStr = "20060102150405Z0700"
 
 // AddASN1GeneralizedTime appends a DER-encoded ASN.1 GENERALIZEDTIME.
 func (b *Builder) AddASN1GeneralizedTime(t time.Time) {
+	// ITU-T X.690, section 11.7.1: DER times are UTC and end with a "Z"
+	t = t.UTC()
 	if t.Year() < 0 || t.Year() > 9999 {
 		b.err = fmt.Errorf("cryptobyte: cannot represent %v as a GeneralizedTime", t)
 		return
-- 
2.43.0


From 32146ef5ffc1a82a54b23ab95fa60a579953b40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:22 +0000
Subject: [PATCH 32/37] fix: refuse an OID whose second component overflows
 instead of dropping it

---
 cryptobyte/asn1.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cryptobyte/asn1.go b/cryptobyte/asn1.go
index c128918..1521c4f 100644
--- a/cryptobyte/asn1.go
+++ b/cryptobyte/asn1.go
@@ -7,6 +7,7 @@ package cryptobyte
 import (
 	encoding_asn1 "encoding/asn1"
 	"fmt"
+	"math"
 	"math/big"
 	"reflect"
 	"time"
@@ -158,6 +159,11 @@ func isValidOID(oid encoding_asn1.ObjectIdentifier) bool {
 		}
 	}
 
+	if int64(oid[1]) > math.MaxInt64-80 {
+		// The first two components would overflow when they are combined.
+		return false
+	}
+
 	return true
 }
 
-- 
2.43.0


From 60861bd58088a4aa9517ee6da99d4bf16b4c86a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:40 +0000
Subject: [PATCH 33/37] fix: cryptobyte: a fixed-size builder without room for
 a length prefix panicked instead of returning an error

---
 cryptobyte/builder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cryptobyte/builder.go b/cryptobyte/builder.go
index 25811c8..8374f1e 100644
--- a/cryptobyte/builder.go
+++ b/cryptobyte/builder.go
@@ -176,6 +176,9 @@ func (b *Builder) addLengthPrefixed(lenLen int, isASN1 bool, f BuilderContinuati
 
 	offset := len(b.result)
 	b.add(make([]byte, lenLen)...)
+	if b.err != nil {
+		return
+	}
 
 	if b.inContinuation == nil {
 		b.inContinuation = new(bool)
-- 
2.43.0


From a230ac9b427e986907b5d279cbfe236d7eda8af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:28 +0000
Subject: [PATCH 34/37] fix: refuse domains that start with an empty label

---
 sm2/cert/gmx509.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sm2/cert/gmx509.go b/sm2/cert/gmx509.go
index d9a1fb3..287ec78 100644
--- a/sm2/cert/gmx509.go
+++ b/sm2/cert/gmx509.go
@@ -485,6 +485,10 @@ func domainToReverseLabels(domain string) (reverseLabels []string, ok bool) {
 		} else {
 			reverseLabels = append(reverseLabels, domain[i+1:])
 			domain = domain[:i]
+			if i == 0 {
+				// The domain starts with an empty label.
+				reverseLabels = append(reverseLabels, "")
+			}
 		}
 	}
 
-- 
2.43.0


From f428d116c52af561706e577d4cc1e43ee3a76a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:07 +0000
Subject: [PATCH 35/37] fix: cert: a template filled from a request kept an old
 raw subject, which was issued instead of the request's

---
 sm2/cert/gmx509.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sm2/cert/gmx509.go b/sm2/cert/gmx509.go
index 287ec78..59aed63 100644
--- a/sm2/cert/gmx509.go
+++ b/sm2/cert/gmx509.go
@@ -564,6 +564,7 @@ func VerifyCSRSign(csr *x509.CertificateRequest, userId []byte) bool {
 }
 
 func FillCertificateTemplateByCSR(template *x509.Certificate, csr *x509.CertificateRequest) {
+	template.RawSubject = nil // it would take precedence over Subject
 	template.Subject = csr.Subject
 	template.PublicKeyAlgorithm = csr.PublicKeyAlgorithm
 	template.PublicKey = csr.PublicKey
-- 
2.43.0


From 0d6929d67435ea31b2b061e28cf1a8fd3850c614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:44 +0000
Subject: [PATCH 36/37] fix: cert: subject attributes of a request without a
 pkix.Name field were lost from a template filled from it

---
 sm2/cert/gmx509.go | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/sm2/cert/gmx509.go b/sm2/cert/gmx509.go
index 59aed63..59bc119 100644
--- a/sm2/cert/gmx509.go
+++ b/sm2/cert/gmx509.go
@@ -565,7 +565,7 @@ func VerifyCSRSign(csr *x509.CertificateRequest, userId []byte) bool {
 
 func FillCertificateTemplateByCSR(template *x509.Certificate, csr *x509.CertificateRequest) {
 	template.RawSubject = nil // it would take precedence over Subject
-	template.Subject = csr.Subject
+	template.Subject = allNames(csr.Subject)
 	template.PublicKeyAlgorithm = csr.PublicKeyAlgorithm
 	template.PublicKey = csr.PublicKey
 	template.Extensions = csr.Extensions
@@ -576,6 +576,41 @@ func FillCertificateTemplateByCSR(template *x509.Certificate, csr *x509.Certific
 	template.URIs = csr.URIs
 }
 
+// allNames returns a parsed name with the attributes that pkix.Name has no
+// field for, or no room in the field for, also in ExtraNames: those in Names
+// only are left out when the name is encoded.
+func allNames(name pkix.Name) pkix.Name {
+	count := make(map[string]int)
+	for _, atv := range name.Names {
+		count[atv.Type.String()]++
+	}
+	extra := append([]pkix.AttributeTypeAndValue(nil), name.ExtraNames...)
+	for _, atv := range name.Names {
+		switch t := atv.Type.String(); t {
+		case "2.5.4.6", "2.5.4.7", "2.5.4.8", "2.5.4.9", "2.5.4.10", "2.5.4.11", "2.5.4.17":
+			continue
+		case "2.5.4.3", "2.5.4.5":
+			if count[t] == 1 {
+				continue
+			}
+		}
+		if !oidInNames(atv.Type, name.ExtraNames) {
+			extra = append(extra, atv)
+		}
+	}
+	name.ExtraNames = extra
+	return name
+}
+
+func oidInNames(oid asn1.ObjectIdentifier, names []pkix.AttributeTypeAndValue) bool {
+	for _, atv := range names {
+		if atv.Type.Equal(oid) {
+			return true
+		}
+	}
+	return false
+}
+
 func subjectBytes(cert *x509.Certificate) ([]byte, error) {
 	if len(cert.RawSubject) > 0 {
 		return cert.RawSubject, nil
-- 
2.43.0


From f39fb7ff7c07aba91e9fbc2de68e27907c8c914c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:09 +0000
Subject: [PATCH 37/37] fix: refuse key lengths beyond the key derivation
 function and round up long ones without overflow

---
 sm2/keyexchange.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sm2/keyexchange.go b/sm2/keyexchange.go
index 2f2ac89..87180e7 100644
--- a/sm2/keyexchange.go
+++ b/sm2/keyexchange.go
@@ -42,6 +42,9 @@ func calculateU(w int, selfStaticPriv *PrivateKey, selfEphemeralPriv *PrivateKey
 	return
 }
 
+// maxKeyBits is where the 32-bit counter of the key derivation function ends.
+const maxKeyBits int64 = (1<<32 - 1) * 256
+
 func kdfForExch(digest hash.Hash, ux, uy *big.Int, za, zb []byte, keyBits int) []byte {
 	bufSize := 4
 	if bufSize < digest.Size() {
@@ -49,7 +52,7 @@ func kdfForExch(digest hash.Hash, ux, uy *big.Int, za, zb []byte, keyBits int) [
 	}
 	buf := make([]byte, bufSize)
 
-	rv := make([]byte, (keyBits+7)/8)
+	rv := make([]byte, keyBits/8+(keyBits%8+7)/8)
 	rvLen := len(rv)
 	uxBytes := bigIntTo32Bytes(ux)
 	uyBytes := bigIntTo32Bytes(uy)
@@ -121,6 +124,9 @@ func CalculateKeyWithConfirmation(initiator bool, keyBits int, confirmationTag [
 	if keyBits < 0 {
 		return nil, errors.New("keyBits must not be negative")
 	}
+	if int64(keyBits) >= maxKeyBits {
+		return nil, errors.New("keyBits is too large")
+	}
 	curve := selfStaticPriv.Curve
 	if !curve.IsOnCurve(otherStaticPub.X, otherStaticPub.Y) || !curve.IsOnCurve(otherEphemeralPub.X, otherEphemeralPub.Y) {
 		return nil, errors.New("public key is not a point on the curve")
-- 
2.43.0

