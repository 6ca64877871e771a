From c2d4ebb3c0f568e7347d627209a78d0580080586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:00 +0000
Subject: [PATCH 01/14] fix: skip pairs with the point at infinity in
 MillerLoop instead of panicking

---
 pairing.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pairing.go b/pairing.go
index 606e250..9c08adc 100644
--- a/pairing.go
+++ b/pairing.go
@@ -14,14 +14,15 @@ type pairingItem struct {
 
 // MillerLoop runs the miller loop algorithm.
 func MillerLoop(items []MillerLoopItem) *FQ12 {
-	pairs := make([]pairingItem, len(items))
-	for i, item := range items {
+	// a pair with the point at infinity contributes a factor of 1
+	pairs := make([]pairingItem, 0, len(items))
+	for _, item := range items {
 		if !item.P.IsZero() && !item.Q.IsZero() {
-			pairs[i] = pairingItem{
+			pairs = append(pairs, pairingItem{
 				p:      item.P.Copy(),
 				q:      item.Q.coeffs,
 				qIndex: 0,
-			}
+			})
 		}
 	}
 
-- 
2.43.0


From e2205fe99ada39b6ce7153e50be684571a11764e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:00 +0000
Subject: [PATCH 02/14] fix: G2Affine.Equals reported any two finite points as
 equal

---
 g2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/g2.go b/g2.go
index 636fa98..f38bdb8 100644
--- a/g2.go
+++ b/g2.go
@@ -139,7 +139,7 @@ func (g G2Affine) ScaleByCofactor() *G2Projective {
 
 // Equals checks if two affine points are equal.
 func (g G2Affine) Equals(other *G2Affine) bool {
-	return (g.infinity == other.infinity) || (g.x.Equals(other.x) && g.y.Equals(other.y))
+	return (g.infinity == other.infinity && g.infinity == true) || (g.x.Equals(other.x) && g.y.Equals(other.y))
 }
 
 // GetG2PointFromX attempts to reconstruct an affine point given
-- 
2.43.0


From 34f03969022f65729ee48f790124221c0c2a110b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:00 +0000
Subject: [PATCH 03/14] fix: FQ6.MulAssign (and so FQ6.Exp) was wrong when
 multiplying an element by itself

---
 fq6.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fq6.go b/fq6.go
index 1d948a3..8f24482 100644
--- a/fq6.go
+++ b/fq6.go
@@ -253,6 +253,8 @@ func (f *FQ6) SquareAssign() {
 
 // MulAssign multiplies two FQ6 elements together.
 func (f *FQ6) MulAssign(other *FQ6) {
+	// other may be f itself (as in Exp), and f is overwritten on the way
+	other = other.Copy()
 	aa := f.c0.Copy()
 	aa.MulAssign(other.c0)
 	bb := f.c1.Copy()
-- 
2.43.0


From 083e44c93bf3708b999c2f9824a202f759f43b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:00 +0000
Subject: [PATCH 04/14] fix: FRReprToFR overwrote its argument, so a second
 conversion gave another element

---
 fr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fr.go b/fr.go
index a6123f0..deb145d 100644
--- a/fr.go
+++ b/fr.go
@@ -40,7 +40,7 @@ var FRR2, _ = FRReprFromString("329490647479426544212979752063071073927857568219
 // FRReprToFR gets a pointer to a FR given a pointer
 // to an FRRepr
 func FRReprToFR(o *FRRepr) *FR {
-	r := &FR{n: o}
+	r := &FR{n: o.Copy()}
 	if r.IsValid() {
 		r.MulAssign(&FR{FRR2})
 		return r
-- 
2.43.0


From ba91eed5ca8f5f90c854060ea3405df341813ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:00 +0000
Subject: [PATCH 05/14] fix: FQ.MulBits and FR.MulBits multiplied by the
 bit-reversed number

---
 fq.go | 2 +-
 fr.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/fq.go b/fq.go
index 11ea4ec..4304ebc 100644
--- a/fq.go
+++ b/fq.go
@@ -277,7 +277,7 @@ func (f FQ) MulBits(b *FQRepr) FQ {
 	res := FQZero.Copy()
 	for i := uint(0); i < b.BitLen(); i++ {
 		res.DoubleAssign()
-		if b.Bit(i) {
+		if b.Bit(b.BitLen() - i - 1) {
 			res.AddAssign(f)
 		}
 	}
diff --git a/fr.go b/fr.go
index deb145d..8e07cca 100644
--- a/fr.go
+++ b/fr.go
@@ -273,7 +273,7 @@ func (f FR) MulBits(b *FRRepr) *FR {
 	res := bigZeroFR.Copy()
 	for i := uint(0); i < b.BitLen(); i++ {
 		res.DoubleAssign()
-		if b.Bit(i) {
+		if b.Bit(b.BitLen() - i - 1) {
 			res.AddAssign(&f)
 		}
 	}
-- 
2.43.0


From 4d917ec84995759a9404dcfa155455d41086ccfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:01 +0000
Subject: [PATCH 06/14] fix: G1Affine.SetRawBytes did not invert SerializeBytes
 (no Montgomery conversion, kept infinity)

---
 g1.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/g1.go b/g1.go
index 13b1371..c562d71 100644
--- a/g1.go
+++ b/g1.go
@@ -172,12 +172,9 @@ func (g *G1Affine) SetRawBytes(uncompressed [96]byte) {
 	var yBytes [48]byte
 	copy(xBytes[:], uncompressed[0:48])
 	copy(yBytes[:], uncompressed[48:96])
-	g.x = FQ{
-		n: FQReprFromBytes(xBytes),
-	}
-	g.y = FQ{
-		n: FQReprFromBytes(yBytes),
-	}
+	g.x = FQReprToFQ(FQReprFromBytes(xBytes))
+	g.y = FQReprToFQ(FQReprFromBytes(yBytes))
+	g.infinity = false
 }
 
 // DecompressG1 decompresses the big int into an affine point and checks
-- 
2.43.0


From 3600cfad9dd3ae818e7f2c8fbb20943d519f2997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:01 +0000
Subject: [PATCH 07/14] fix: G2Affine.SetRawBytes kept infinity and silently
 zeroed coordinates outside the field

---
 g2.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/g2.go b/g2.go
index f38bdb8..e3034fb 100644
--- a/g2.go
+++ b/g2.go
@@ -198,6 +198,12 @@ func (g *G2Affine) SetRawBytes(uncompressed [192]byte) error {
 	copy(yC0Bytes[:], uncompressed[96:144])
 	copy(yC1Bytes[:], uncompressed[144:192])
 
+	for _, b := range [][48]byte{xC0Bytes, xC1Bytes, yC0Bytes, yC1Bytes} {
+		if repr := FQReprFromBytes(b); repr.Cmp(QFieldModulus) >= 0 {
+			return errors.New("coordinate is not less than the field modulus")
+		}
+	}
+
 	xc0FQ := FQReprToFQ(FQReprFromBytes(xC0Bytes))
 	xc1FQ := FQReprToFQ(FQReprFromBytes(xC1Bytes))
 	yc0FQ := FQReprToFQ(FQReprFromBytes(yC0Bytes))
@@ -211,6 +217,7 @@ func (g *G2Affine) SetRawBytes(uncompressed [192]byte) error {
 		c0: yc0FQ,
 		c1: yc1FQ,
 	}
+	g.infinity = false
 	return nil
 }
 
-- 
2.43.0


From 9beff65599db3d41d75abda89d589ec7c125972f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:01 +0000
Subject: [PATCH 08/14] fix: decompression accepted x-coordinates outside the
 field as zero

---
 g1.go | 3 +++
 g2.go | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/g1.go b/g1.go
index c562d71..a7f73ae 100644
--- a/g1.go
+++ b/g1.go
@@ -218,6 +218,9 @@ func DecompressG1Unchecked(b [48]byte) (*G1Affine, error) {
 	copyBytes[0] &= 0x1f
 
 	x := FQReprFromBytes(copyBytes)
+	if x.Cmp(QFieldModulus) >= 0 {
+		return nil, errors.New("x-coordinate is not less than the field modulus")
+	}
 	xFQ := FQReprToFQ(x)
 
 	return GetG1PointFromX(xFQ, greatest)
diff --git a/g2.go b/g2.go
index e3034fb..98f47c6 100644
--- a/g2.go
+++ b/g2.go
@@ -262,8 +262,11 @@ func DecompressG2Unchecked(c [96]byte) (*G2Affine, error) {
 	copy(xC0Bytes[:], c[48:])
 
 	xC0 := FQReprFromBytes(xC0Bytes)
-	xC0FQ := FQReprToFQ(xC0)
 	xC1 := FQReprFromBytes(xC1Bytes)
+	if xC0.Cmp(QFieldModulus) >= 0 || xC1.Cmp(QFieldModulus) >= 0 {
+		return nil, errors.New("x-coordinate is not less than the field modulus")
+	}
+	xC0FQ := FQReprToFQ(xC0)
 	xC1FQ := FQReprToFQ(xC1)
 
 	x := NewFQ2(xC0FQ, xC1FQ)
-- 
2.43.0


From c1ede0482813779267c39f81673e3568c5159b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:01 +0000
Subject: [PATCH 09/14] fix: VerifyAggregate rejected an empty message as a
 duplicate

---
 g1pubs/bls.go | 4 ++--
 g2pubs/bls.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/g1pubs/bls.go b/g1pubs/bls.go
index 259adec..3882f68 100644
--- a/g1pubs/bls.go
+++ b/g1pubs/bls.go
@@ -265,8 +265,8 @@ func (s *Signature) VerifyAggregate(pubKeys []*PublicKey, msgs [][]byte) bool {
 	lastMsg := []byte(nil)
 
 	// check for duplicates
-	for _, m := range msgsSorted {
-		if bytes.Equal(m, lastMsg) {
+	for i, m := range msgsSorted {
+		if i > 0 && bytes.Equal(m, lastMsg) {
 			return false
 		}
 		lastMsg = m
diff --git a/g2pubs/bls.go b/g2pubs/bls.go
index 16d32eb..0a29376 100644
--- a/g2pubs/bls.go
+++ b/g2pubs/bls.go
@@ -253,8 +253,8 @@ func (s *Signature) VerifyAggregate(pubKeys []*PublicKey, msgs [][]byte) bool {
 	lastMsg := []byte(nil)
 
 	// check for duplicates
-	for _, m := range msgsSorted {
-		if bytes.Equal(m, lastMsg) {
+	for i, m := range msgsSorted {
+		if i > 0 && bytes.Equal(m, lastMsg) {
 			return false
 		}
 		lastMsg = m
-- 
2.43.0


From a1b5e9d60188056ba9693defd85e301d1225c44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:01 +0000
Subject: [PATCH 10/14] fix: G2Projective.ToAffine handed out the shared
 G2AffineZero

---
 g2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/g2.go b/g2.go
index 98f47c6..c3c2105 100644
--- a/g2.go
+++ b/g2.go
@@ -374,7 +374,7 @@ func (g G2Projective) Equals(other *G2Projective) bool {
 // ToAffine converts a G2Projective point to affine form.
 func (g G2Projective) ToAffine() *G2Affine {
 	if g.IsZero() {
-		return G2AffineZero
+		return G2AffineZero.Copy()
 	} else if g.z.Equals(FQ2One) {
 		return NewG2Affine(g.x, g.y)
 	}
-- 
2.43.0


From 50d7edb6c4c9e4d635e3d72ecc48687ddffd9923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:01 +0000
Subject: [PATCH 11/14] fix: RandG1 and RandG2 could return the point at
 infinity

---
 g1.go | 2 +-
 g2.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/g1.go b/g1.go
index a7f73ae..6afc3fe 100644
--- a/g1.go
+++ b/g1.go
@@ -605,7 +605,7 @@ func RandG1(r io.Reader) (*G1Projective, error) {
 			continue
 		}
 		p1 := p.ScaleByCofactor()
-		if !p.IsZero() {
+		if !p1.IsZero() {
 			return p1, nil
 		}
 	}
diff --git a/g2.go b/g2.go
index c3c2105..30b500b 100644
--- a/g2.go
+++ b/g2.go
@@ -831,7 +831,7 @@ func RandG2(r io.Reader) (*G2Projective, error) {
 			continue
 		}
 		p1 := p.ScaleByCofactor()
-		if !p.IsZero() {
+		if !p1.IsZero() {
 			return p1, nil
 		}
 	}
-- 
2.43.0


From f4ad9975ef86f8cd1b5a27496ba777b761229ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:01 +0000
Subject: [PATCH 12/14] fix: out-of-range secret keys came back as keys that
 crash on use

---
 g1pubs/bls.go | 12 ++++++++----
 g2pubs/bls.go | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/g1pubs/bls.go b/g1pubs/bls.go
index 3882f68..8294870 100644
--- a/g1pubs/bls.go
+++ b/g1pubs/bls.go
@@ -117,9 +117,9 @@ func (s SecretKey) Serialize() [32]byte {
 }
 
 // DeserializeSecretKey deserializes a secret key from
-// bytes.
+// bytes. It returns nil if they are not less than the group order.
 func DeserializeSecretKey(b [32]byte) *SecretKey {
-	return &SecretKey{bls.FRReprToFR(bls.FRReprFromBytes(b))}
+	return KeyFromFQRepr(bls.FRReprFromBytes(b))
 }
 
 // DeriveSecretKey derives a secret key from
@@ -156,9 +156,13 @@ func RandKey(r io.Reader) (*SecretKey, error) {
 }
 
 // KeyFromFQRepr returns a new key based on a FQRepr in
-// FR.
+// FR. It returns nil if it is not less than the group order.
 func KeyFromFQRepr(i *bls.FRRepr) *SecretKey {
-	return &SecretKey{f: bls.FRReprToFR(i)}
+	f := bls.FRReprToFR(i)
+	if f == nil {
+		return nil
+	}
+	return &SecretKey{f: f}
 }
 
 // Verify verifies a signature against a message and a public key.
diff --git a/g2pubs/bls.go b/g2pubs/bls.go
index 0a29376..e3effe0 100644
--- a/g2pubs/bls.go
+++ b/g2pubs/bls.go
@@ -117,9 +117,9 @@ func (s SecretKey) Serialize() [32]byte {
 }
 
 // DeserializeSecretKey deserializes a secret key from
-// bytes.
+// bytes. It returns nil if they are not less than the group order.
 func DeserializeSecretKey(b [32]byte) *SecretKey {
-	return &SecretKey{bls.FRReprToFR(bls.FRReprFromBytes(b))}
+	return KeyFromFQRepr(bls.FRReprFromBytes(b))
 }
 
 // DeriveSecretKey derives a secret key from
@@ -150,9 +150,13 @@ func RandKey(r io.Reader) (*SecretKey, error) {
 }
 
 // KeyFromFQRepr returns a new key based on a FQRepr in
-// FR.
+// FR. It returns nil if it is not less than the group order.
 func KeyFromFQRepr(i *bls.FRRepr) *SecretKey {
-	return &SecretKey{f: bls.FRReprToFR(i)}
+	f := bls.FRReprToFR(i)
+	if f == nil {
+		return nil
+	}
+	return &SecretKey{f: f}
 }
 
 // Verify verifies a signature against a message and a public key.
-- 
2.43.0


From 0fc3ae36999d474f325b766979d2a0c6b7e83ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:01 +0000
Subject: [PATCH 13/14] fix: FR.Sqrt always returned a constant

---
 fr.go | 41 ++++++++++++++++++++++++++++++++++++++---
 1 file changed, 38 insertions(+), 3 deletions(-)

diff --git a/fr.go b/fr.go
index 8e07cca..4032912 100644
--- a/fr.go
+++ b/fr.go
@@ -209,10 +209,45 @@ func (f *FR) SquareAssign() {
 	f.montReduce(r0, r1, r2, r3, r4, r5, r6, r7)
 }
 
-// Sqrt calculates the square root of the field element.
+// frRootOfUnity is 7^((r - 1) / 2^32), of order 2^32.
+var frRootOfUnity, _ = FRReprFromString("10238227357739495823651030575849232062558860180284477541189508159991286009131", 10)
+
+// (r - 1) / 2^32 = 2 * rTMinus1Over2 + 1
+var rTMinus1Over2, _ = FRReprFromString("6104339283789297388802252303364915521546564123189034618274734669823", 10)
+
+// Sqrt calculates the square root of the field element, or nil if
+// there is none.
 func (f FR) Sqrt() *FR {
-	// TODO: fixme
-	return FRReprToFR(frOne)
+	if f.IsZero() {
+		return f.Copy()
+	}
+	if f.Legendre() != LegendreQuadraticResidue {
+		return nil
+	}
+
+	// Tonelli-Shanks, r - 1 = 2^32 * t with t odd:
+	// keeps x^2 = f * b, with b of order dividing 2^(m - 1)
+	x := f.Exp(rTMinus1Over2)
+	b := x.Copy()
+	b.SquareAssign()
+	b.MulAssign(&f)
+	x.MulAssign(&f)
+	z := FRReprToFR(frRootOfUnity)
+	m := 32
+	for !b.Equals(bigOneFR) {
+		k := 0
+		for t := b.Copy(); !t.Equals(bigOneFR); t.SquareAssign() {
+			k++
+		}
+		for i := 0; i < m-k-1; i++ {
+			z.SquareAssign()
+		}
+		x.MulAssign(z)
+		z.SquareAssign()
+		b.MulAssign(z)
+		m = k
+	}
+	return x
 }
 
 // Inverse finds the inverse of the field element.
-- 
2.43.0


From 8da1b141f4a74c58a658a0817b5165c78d149ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:52 +0000
Subject: [PATCH 14/14] fix: RandG1 and RandG2 took the sign from nothing when
 the source's first read was empty

---
 g1.go | 2 +-
 g2.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/g1.go b/g1.go
index 6afc3fe..349e258 100644
--- a/g1.go
+++ b/g1.go
@@ -588,7 +588,7 @@ func (g G1Projective) MulFR(b *FRRepr) *G1Projective {
 func RandG1(r io.Reader) (*G1Projective, error) {
 	for {
 		b := make([]byte, 1)
-		_, err := r.Read(b)
+		_, err := io.ReadFull(r, b)
 		if err != nil {
 			return nil, err
 		}
diff --git a/g2.go b/g2.go
index 30b500b..9034f64 100644
--- a/g2.go
+++ b/g2.go
@@ -814,7 +814,7 @@ func G2AffineToPrepared(q *G2Affine) *G2Prepared {
 func RandG2(r io.Reader) (*G2Projective, error) {
 	for {
 		b := make([]byte, 1)
-		_, err := r.Read(b)
+		_, err := io.ReadFull(r, b)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0

