From c79e438e487df2d8ab1a1c6cbd37d5529a716624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 01/14] fix: MillerLoop skips items with a point at infinity
 instead of panicking

---
 pairing.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pairing.go b/pairing.go
index 606e250..9c3e419 100644
--- a/pairing.go
+++ b/pairing.go
@@ -14,14 +14,14 @@ type pairingItem struct {
 
 // MillerLoop runs the miller loop algorithm.
 func MillerLoop(items []MillerLoopItem) *FQ12 {
-	pairs := make([]pairingItem, len(items))
-	for i, item := range items {
+	pairs := make([]pairingItem, 0, len(items))
+	for _, item := range items {
 		if !item.P.IsZero() && !item.Q.IsZero() {
-			pairs[i] = pairingItem{
+			pairs = append(pairs, pairingItem{
 				p:      item.P.Copy(),
 				q:      item.Q.coeffs,
 				qIndex: 0,
-			}
+			})
 		}
 	}
 
-- 
2.43.0


From 965f2c1e49c594b3bd1bfb30402c3a18caa254dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 02/14] fix: G2Affine.Equals no longer treats any two finite
 points as equal

---
 g2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/g2.go b/g2.go
index 636fa98..f38bdb8 100644
--- a/g2.go
+++ b/g2.go
@@ -139,7 +139,7 @@ func (g G2Affine) ScaleByCofactor() *G2Projective {
 
 // Equals checks if two affine points are equal.
 func (g G2Affine) Equals(other *G2Affine) bool {
-	return (g.infinity == other.infinity) || (g.x.Equals(other.x) && g.y.Equals(other.y))
+	return (g.infinity == other.infinity && g.infinity == true) || (g.x.Equals(other.x) && g.y.Equals(other.y))
 }
 
 // GetG2PointFromX attempts to reconstruct an affine point given
-- 
2.43.0


From 7fbb59380f10ba855394b30588387361c7f08e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 03/14] fix: FRReprToFR no longer overwrites the representation
 it is given

---
 fr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fr.go b/fr.go
index a6123f0..deb145d 100644
--- a/fr.go
+++ b/fr.go
@@ -40,7 +40,7 @@ var FRR2, _ = FRReprFromString("329490647479426544212979752063071073927857568219
 // FRReprToFR gets a pointer to a FR given a pointer
 // to an FRRepr
 func FRReprToFR(o *FRRepr) *FR {
-	r := &FR{n: o}
+	r := &FR{n: o.Copy()}
 	if r.IsValid() {
 		r.MulAssign(&FR{FRR2})
 		return r
-- 
2.43.0


From 814cdb4434396e04d69d3b4597dcf6e3f8ad34d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 04/14] fix: FQ6.MulAssign multiplies an element by itself
 correctly

---
 fq6.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fq6.go b/fq6.go
index 1d948a3..2854631 100644
--- a/fq6.go
+++ b/fq6.go
@@ -253,6 +253,10 @@ func (f *FQ6) SquareAssign() {
 
 // MulAssign multiplies two FQ6 elements together.
 func (f *FQ6) MulAssign(other *FQ6) {
+	if f == other {
+		// the steps below overwrite f while still reading other
+		other = other.Copy()
+	}
 	aa := f.c0.Copy()
 	aa.MulAssign(other.c0)
 	bb := f.c1.Copy()
-- 
2.43.0


From c722005a12249969e481a749c5f3892bdd4e1f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 05/14] fix: FQ.MulBits and FR.MulBits read the multiplier from
 its top bit

---
 fq.go | 2 +-
 fr.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/fq.go b/fq.go
index 11ea4ec..3e58d99 100644
--- a/fq.go
+++ b/fq.go
@@ -277,7 +277,7 @@ func (f FQ) MulBits(b *FQRepr) FQ {
 	res := FQZero.Copy()
 	for i := uint(0); i < b.BitLen(); i++ {
 		res.DoubleAssign()
-		if b.Bit(i) {
+		if b.Bit(b.BitLen() - 1 - i) {
 			res.AddAssign(f)
 		}
 	}
diff --git a/fr.go b/fr.go
index deb145d..5d58614 100644
--- a/fr.go
+++ b/fr.go
@@ -273,7 +273,7 @@ func (f FR) MulBits(b *FRRepr) *FR {
 	res := bigZeroFR.Copy()
 	for i := uint(0); i < b.BitLen(); i++ {
 		res.DoubleAssign()
-		if b.Bit(i) {
+		if b.Bit(b.BitLen() - 1 - i) {
 			res.AddAssign(&f)
 		}
 	}
-- 
2.43.0


From 8d24fca414e93194b50187a223a6c9d17af58ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 06/14] fix: G1Affine.SetRawBytes converts the coordinates it
 reads

---
 g1.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/g1.go b/g1.go
index 13b1371..980faf0 100644
--- a/g1.go
+++ b/g1.go
@@ -172,12 +172,8 @@ func (g *G1Affine) SetRawBytes(uncompressed [96]byte) {
 	var yBytes [48]byte
 	copy(xBytes[:], uncompressed[0:48])
 	copy(yBytes[:], uncompressed[48:96])
-	g.x = FQ{
-		n: FQReprFromBytes(xBytes),
-	}
-	g.y = FQ{
-		n: FQReprFromBytes(yBytes),
-	}
+	g.x = FQReprToFQ(FQReprFromBytes(xBytes))
+	g.y = FQReprToFQ(FQReprFromBytes(yBytes))
 }
 
 // DecompressG1 decompresses the big int into an affine point and checks
-- 
2.43.0


From 7fdedf7cfed15f8f00c93bef18ddb1bcdb0f9ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 07/14] fix: SetRawBytes sets the infinity flag to match the
 bytes it reads

---
 g1.go | 2 ++
 g2.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/g1.go b/g1.go
index 980faf0..ca1f4a4 100644
--- a/g1.go
+++ b/g1.go
@@ -174,6 +174,8 @@ func (g *G1Affine) SetRawBytes(uncompressed [96]byte) {
 	copy(yBytes[:], uncompressed[48:96])
 	g.x = FQReprToFQ(FQReprFromBytes(xBytes))
 	g.y = FQReprToFQ(FQReprFromBytes(yBytes))
+	// infinity is serialized as (0, 1), which is not on the curve
+	g.infinity = g.x.IsZero() && g.y.Equals(FQOne)
 }
 
 // DecompressG1 decompresses the big int into an affine point and checks
diff --git a/g2.go b/g2.go
index f38bdb8..3b17eeb 100644
--- a/g2.go
+++ b/g2.go
@@ -211,6 +211,8 @@ func (g *G2Affine) SetRawBytes(uncompressed [192]byte) error {
 		c0: yc0FQ,
 		c1: yc1FQ,
 	}
+	// infinity is serialized as (0, 1), which is not on the curve
+	g.infinity = g.x.IsZero() && g.y.Equals(FQ2One)
 	return nil
 }
 
-- 
2.43.0


From 8eb4b0db3c8432f4ec439716a3a2cc4491e96da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 08/14] fix: decompression rejects x-coordinates that are not
 field elements

---
 g1.go | 3 +++
 g2.go | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/g1.go b/g1.go
index ca1f4a4..25fbc85 100644
--- a/g1.go
+++ b/g1.go
@@ -219,6 +219,9 @@ func DecompressG1Unchecked(b [48]byte) (*G1Affine, error) {
 	copyBytes[0] &= 0x1f
 
 	x := FQReprFromBytes(copyBytes)
+	if x.Cmp(QFieldModulus) >= 0 {
+		return nil, errors.New("x-coordinate is not in the field")
+	}
 	xFQ := FQReprToFQ(x)
 
 	return GetG1PointFromX(xFQ, greatest)
diff --git a/g2.go b/g2.go
index 3b17eeb..3b87f84 100644
--- a/g2.go
+++ b/g2.go
@@ -257,8 +257,11 @@ func DecompressG2Unchecked(c [96]byte) (*G2Affine, error) {
 	copy(xC0Bytes[:], c[48:])
 
 	xC0 := FQReprFromBytes(xC0Bytes)
-	xC0FQ := FQReprToFQ(xC0)
 	xC1 := FQReprFromBytes(xC1Bytes)
+	if xC0.Cmp(QFieldModulus) >= 0 || xC1.Cmp(QFieldModulus) >= 0 {
+		return nil, errors.New("x-coordinate is not in the field")
+	}
+	xC0FQ := FQReprToFQ(xC0)
 	xC1FQ := FQReprToFQ(xC1)
 
 	x := NewFQ2(xC0FQ, xC1FQ)
-- 
2.43.0


From 73e69d1add7b4ab726b1e8716352b55a2a6cb18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 09/14] fix: RandG1 and RandG2 never return the point at
 infinity

---
 g1.go | 2 +-
 g2.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/g1.go b/g1.go
index 25fbc85..4998225 100644
--- a/g1.go
+++ b/g1.go
@@ -606,7 +606,7 @@ func RandG1(r io.Reader) (*G1Projective, error) {
 			continue
 		}
 		p1 := p.ScaleByCofactor()
-		if !p.IsZero() {
+		if !p1.IsZero() {
 			return p1, nil
 		}
 	}
diff --git a/g2.go b/g2.go
index 3b87f84..0e63e7c 100644
--- a/g2.go
+++ b/g2.go
@@ -826,7 +826,7 @@ func RandG2(r io.Reader) (*G2Projective, error) {
 			continue
 		}
 		p1 := p.ScaleByCofactor()
-		if !p.IsZero() {
+		if !p1.IsZero() {
 			return p1, nil
 		}
 	}
-- 
2.43.0


From 187c88889c078d7d330a24108f6d79da647e393b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 10/14] fix: VerifyAggregate no longer takes an empty message
 for a duplicate

---
 g1pubs/bls.go | 6 ++----
 g2pubs/bls.go | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/g1pubs/bls.go b/g1pubs/bls.go
index 259adec..5232186 100644
--- a/g1pubs/bls.go
+++ b/g1pubs/bls.go
@@ -262,14 +262,12 @@ func (s *Signature) VerifyAggregate(pubKeys []*PublicKey, msgs [][]byte) bool {
 	}
 
 	msgsSorted := sortByteArrays(msgsCopy)
-	lastMsg := []byte(nil)
 
 	// check for duplicates
-	for _, m := range msgsSorted {
-		if bytes.Equal(m, lastMsg) {
+	for i := 1; i < len(msgsSorted); i++ {
+		if bytes.Equal(msgsSorted[i], msgsSorted[i-1]) {
 			return false
 		}
-		lastMsg = m
 	}
 
 	lhs := bls.Pairing(bls.G1ProjectiveOne, s.s)
diff --git a/g2pubs/bls.go b/g2pubs/bls.go
index 16d32eb..0931c30 100644
--- a/g2pubs/bls.go
+++ b/g2pubs/bls.go
@@ -250,14 +250,12 @@ func (s *Signature) VerifyAggregate(pubKeys []*PublicKey, msgs [][]byte) bool {
 	}
 
 	msgsSorted := sortByteArrays(msgsCopy)
-	lastMsg := []byte(nil)
 
 	// check for duplicates
-	for _, m := range msgsSorted {
-		if bytes.Equal(m, lastMsg) {
+	for i := 1; i < len(msgsSorted); i++ {
+		if bytes.Equal(msgsSorted[i], msgsSorted[i-1]) {
 			return false
 		}
-		lastMsg = m
 	}
 
 	lhs := bls.Pairing(s.s, bls.G2ProjectiveOne)
-- 
2.43.0


From 07ccdc12925a10b610cb81a450a2ee3d6ffbd450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 11/14] fix: G2Projective.ToAffine returns its own copy of the
 point at infinity

---
 g2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/g2.go b/g2.go
index 0e63e7c..5372fd0 100644
--- a/g2.go
+++ b/g2.go
@@ -369,7 +369,7 @@ func (g G2Projective) Equals(other *G2Projective) bool {
 // ToAffine converts a G2Projective point to affine form.
 func (g G2Projective) ToAffine() *G2Affine {
 	if g.IsZero() {
-		return G2AffineZero
+		return G2AffineZero.Copy()
 	} else if g.z.Equals(FQ2One) {
 		return NewG2Affine(g.x, g.y)
 	}
-- 
2.43.0


From c16255651f5d6886617de0038e06ef582c467a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:06 +0000
Subject: [PATCH 12/14] fix: the two SWU points are added on the target curve,
 not with its formulas on the isogenous one

---
 hash.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/hash.go b/hash.go
index cfd6a3f..3e772ff 100644
--- a/hash.go
+++ b/hash.go
@@ -309,14 +309,15 @@ func ClearH(p *G1Affine) *G1Affine {
 }
 
 func optimizedSWUMap(t1 *FQ, t2 *FQ) *G1Affine {
-	Pp := optimizedSWUMapHelper(*t1)
+	Pp := iso11(optimizedSWUMapHelper(*t1))
 
 	if t2 != nil {
-		Pp2 := optimizedSWUMapHelper(*t2)
+		// the group law is implemented for the target curve only,
+		// so the points are added after the isogeny
+		Pp2 := iso11(optimizedSWUMapHelper(*t2))
 
 		Pp = Pp.ToProjective().AddAffine(Pp2).ToAffine()
 	}
-	Pp = iso11(Pp)
 	return ClearH(Pp)
 }
 
@@ -389,14 +390,15 @@ func clearH2(p *G2Affine) *G2Affine {
 }
 
 func optimizedSWUMap2(t1 *FQ2, t2 *FQ2) *G2Affine {
-	Pp := OptimizedSWU2MapHelper(*t1)
+	Pp := iso3(OptimizedSWU2MapHelper(*t1))
 
 	if t2 != nil {
-		Pp2 := OptimizedSWU2MapHelper(*t2)
+		// the group law is implemented for the target curve only,
+		// so the points are added after the isogeny
+		Pp2 := iso3(OptimizedSWU2MapHelper(*t2))
 
 		Pp = Pp.ToProjective().AddAffine(Pp2).ToAffine()
 	}
-	Pp = iso3(Pp)
 
 	return clearH2(Pp)
 }
-- 
2.43.0


From ebb1dcfc6b427c251d6819d89b7d82e77cda4d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:06 +0000
Subject: [PATCH 13/14] fix: iso11 maps the points of its kernel to infinity
 instead of dividing by zero

---
 hash.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hash.go b/hash.go
index 3e772ff..dbff2ea 100644
--- a/hash.go
+++ b/hash.go
@@ -195,6 +195,11 @@ func iso11(p *G1Affine) *G1Affine {
 		}
 	}
 
+	// points of the kernel are mapped to infinity
+	if mapVals[1].IsZero() || mapVals[3].IsZero() {
+		return G1AffineZero.Copy()
+	}
+
 	newX := mapVals[0]
 	newX.DivAssign(mapVals[1])
 
-- 
2.43.0


From c77b933b97369573098f0f656eef4a79bd9eae17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:07 +0000
Subject: [PATCH 14/14] fix: psi maps infinity to infinity

---
 hash.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hash.go b/hash.go
index dbff2ea..3d92288 100644
--- a/hash.go
+++ b/hash.go
@@ -345,6 +345,10 @@ var kQiX = FQReprToFQ(fqReprFromHexUnchecked("1a0111ea397fe699ec02408663d4de85aa
 var kQiY = FQReprToFQ(fqReprFromHexUnchecked("6af0e0437ff400b6831e36d6bd17ffe48395dabc2d3435e77f76e17009241c5ee67992f72ec05f4c81084fbede3cc09"))
 
 func psi(g *G2Affine) *G2Affine {
+	if g.IsZero() {
+		return G2AffineZero.Copy()
+	}
+
 	newX := fq2nqr.Copy()
 	qiX := iwsc.Copy()
 	qiX.MulAssign(g.x)
-- 
2.43.0

