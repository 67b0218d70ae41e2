From 5f586ff0de26f10a60d288120642ef87615c0a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:44 +0000
Subject: [PATCH 01/14] fix: G1Affine.SetRawBytes stored coordinates without
 converting to Montgomery form

---
 g1.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/g1.go b/g1.go
index 13b1371..980faf0 100644
--- a/g1.go
+++ b/g1.go
@@ -172,12 +172,8 @@ func (g *G1Affine) SetRawBytes(uncompressed [96]byte) {
 	var yBytes [48]byte
 	copy(xBytes[:], uncompressed[0:48])
 	copy(yBytes[:], uncompressed[48:96])
-	g.x = FQ{
-		n: FQReprFromBytes(xBytes),
-	}
-	g.y = FQ{
-		n: FQReprFromBytes(yBytes),
-	}
+	g.x = FQReprToFQ(FQReprFromBytes(xBytes))
+	g.y = FQReprToFQ(FQReprFromBytes(yBytes))
 }
 
 // DecompressG1 decompresses the big int into an affine point and checks
-- 
2.43.0


From a65d511fc5b89813aa20d5dadfe272ede5fa86bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:45 +0000
Subject: [PATCH 02/14] fix: G2Affine.Equals treated any two finite points as
 equal

---
 g2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/g2.go b/g2.go
index 636fa98..f38bdb8 100644
--- a/g2.go
+++ b/g2.go
@@ -139,7 +139,7 @@ func (g G2Affine) ScaleByCofactor() *G2Projective {
 
 // Equals checks if two affine points are equal.
 func (g G2Affine) Equals(other *G2Affine) bool {
-	return (g.infinity == other.infinity) || (g.x.Equals(other.x) && g.y.Equals(other.y))
+	return (g.infinity == other.infinity && g.infinity == true) || (g.x.Equals(other.x) && g.y.Equals(other.y))
 }
 
 // GetG2PointFromX attempts to reconstruct an affine point given
-- 
2.43.0


From 61206a5554df6ae5d7b7b2f6502246f3135743f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:45 +0000
Subject: [PATCH 03/14] fix: point decompression accepted x coordinates not
 below the field modulus

---
 g1.go | 3 +++
 g2.go | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/g1.go b/g1.go
index 980faf0..74aee8d 100644
--- a/g1.go
+++ b/g1.go
@@ -217,6 +217,9 @@ func DecompressG1Unchecked(b [48]byte) (*G1Affine, error) {
 	copyBytes[0] &= 0x1f
 
 	x := FQReprFromBytes(copyBytes)
+	if x.Cmp(QFieldModulus) >= 0 {
+		return nil, errors.New("x coordinate is not a canonical field element")
+	}
 	xFQ := FQReprToFQ(x)
 
 	return GetG1PointFromX(xFQ, greatest)
diff --git a/g2.go b/g2.go
index f38bdb8..3ab2da3 100644
--- a/g2.go
+++ b/g2.go
@@ -255,8 +255,11 @@ func DecompressG2Unchecked(c [96]byte) (*G2Affine, error) {
 	copy(xC0Bytes[:], c[48:])
 
 	xC0 := FQReprFromBytes(xC0Bytes)
-	xC0FQ := FQReprToFQ(xC0)
 	xC1 := FQReprFromBytes(xC1Bytes)
+	if xC0.Cmp(QFieldModulus) >= 0 || xC1.Cmp(QFieldModulus) >= 0 {
+		return nil, errors.New("x coordinate is not a canonical field element")
+	}
+	xC0FQ := FQReprToFQ(xC0)
 	xC1FQ := FQReprToFQ(xC1)
 
 	x := NewFQ2(xC0FQ, xC1FQ)
-- 
2.43.0


From 087a2f5442918c816475e0ad445512ddcf98d656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:45 +0000
Subject: [PATCH 04/14] fix: G2Projective.ToAffine returned the shared
 G2AffineZero

---
 g2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/g2.go b/g2.go
index 3ab2da3..a21304c 100644
--- a/g2.go
+++ b/g2.go
@@ -367,7 +367,7 @@ func (g G2Projective) Equals(other *G2Projective) bool {
 // ToAffine converts a G2Projective point to affine form.
 func (g G2Projective) ToAffine() *G2Affine {
 	if g.IsZero() {
-		return G2AffineZero
+		return G2AffineZero.Copy()
 	} else if g.z.Equals(FQ2One) {
 		return NewG2Affine(g.x, g.y)
 	}
-- 
2.43.0


From c46f33ef895c736c152d3d1a5811d3187da88e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 05/14] fix: FQ6.MulAssign gave a wrong product when
 multiplying an element by itself

---
 fq6.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fq6.go b/fq6.go
index 1d948a3..e13692e 100644
--- a/fq6.go
+++ b/fq6.go
@@ -253,6 +253,10 @@ func (f *FQ6) SquareAssign() {
 
 // MulAssign multiplies two FQ6 elements together.
 func (f *FQ6) MulAssign(other *FQ6) {
+	if f == other {
+		// the receiver is overwritten while other is still being read
+		other = other.Copy()
+	}
 	aa := f.c0.Copy()
 	aa.MulAssign(other.c0)
 	bb := f.c1.Copy()
-- 
2.43.0


From fb7b622c1f6442363a21358c2694fdeb1192e2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 06/14] fix: FRReprToFR converted the caller's integer in place
 and kept a reference to it

---
 fr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fr.go b/fr.go
index a6123f0..deb145d 100644
--- a/fr.go
+++ b/fr.go
@@ -40,7 +40,7 @@ var FRR2, _ = FRReprFromString("329490647479426544212979752063071073927857568219
 // FRReprToFR gets a pointer to a FR given a pointer
 // to an FRRepr
 func FRReprToFR(o *FRRepr) *FR {
-	r := &FR{n: o}
+	r := &FR{n: o.Copy()}
 	if r.IsValid() {
 		r.MulAssign(&FR{FRR2})
 		return r
-- 
2.43.0


From f5a1dfed24f083a2ad4443871acf4176bf9831e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 07/14] fix: FQ.MulBits and FR.MulBits read the multiplier bits
 in reverse order

---
 fq.go | 2 +-
 fr.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/fq.go b/fq.go
index 11ea4ec..3e58d99 100644
--- a/fq.go
+++ b/fq.go
@@ -277,7 +277,7 @@ func (f FQ) MulBits(b *FQRepr) FQ {
 	res := FQZero.Copy()
 	for i := uint(0); i < b.BitLen(); i++ {
 		res.DoubleAssign()
-		if b.Bit(i) {
+		if b.Bit(b.BitLen() - 1 - i) {
 			res.AddAssign(f)
 		}
 	}
diff --git a/fr.go b/fr.go
index deb145d..5d58614 100644
--- a/fr.go
+++ b/fr.go
@@ -273,7 +273,7 @@ func (f FR) MulBits(b *FRRepr) *FR {
 	res := bigZeroFR.Copy()
 	for i := uint(0); i < b.BitLen(); i++ {
 		res.DoubleAssign()
-		if b.Bit(i) {
+		if b.Bit(b.BitLen() - 1 - i) {
 			res.AddAssign(&f)
 		}
 	}
-- 
2.43.0


From 72d6d39dceaca1401e3ea455e9f1135140d2a2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 08/14] fix: MillerLoop panicked when a pair contained the
 point at infinity

---
 pairing.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pairing.go b/pairing.go
index 606e250..9c3e419 100644
--- a/pairing.go
+++ b/pairing.go
@@ -14,14 +14,14 @@ type pairingItem struct {
 
 // MillerLoop runs the miller loop algorithm.
 func MillerLoop(items []MillerLoopItem) *FQ12 {
-	pairs := make([]pairingItem, len(items))
-	for i, item := range items {
+	pairs := make([]pairingItem, 0, len(items))
+	for _, item := range items {
 		if !item.P.IsZero() && !item.Q.IsZero() {
-			pairs[i] = pairingItem{
+			pairs = append(pairs, pairingItem{
 				p:      item.P.Copy(),
 				q:      item.Q.coeffs,
 				qIndex: 0,
-			}
+			})
 		}
 	}
 
-- 
2.43.0


From 192b9621f98b7c748c16ebc53a523796e095902b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 09/14] fix: VerifyAggregate rejected a single empty message as
 a duplicate

---
 g1pubs/bls.go | 6 ++----
 g2pubs/bls.go | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/g1pubs/bls.go b/g1pubs/bls.go
index 259adec..5232186 100644
--- a/g1pubs/bls.go
+++ b/g1pubs/bls.go
@@ -262,14 +262,12 @@ func (s *Signature) VerifyAggregate(pubKeys []*PublicKey, msgs [][]byte) bool {
 	}
 
 	msgsSorted := sortByteArrays(msgsCopy)
-	lastMsg := []byte(nil)
 
 	// check for duplicates
-	for _, m := range msgsSorted {
-		if bytes.Equal(m, lastMsg) {
+	for i := 1; i < len(msgsSorted); i++ {
+		if bytes.Equal(msgsSorted[i], msgsSorted[i-1]) {
 			return false
 		}
-		lastMsg = m
 	}
 
 	lhs := bls.Pairing(bls.G1ProjectiveOne, s.s)
diff --git a/g2pubs/bls.go b/g2pubs/bls.go
index 16d32eb..0931c30 100644
--- a/g2pubs/bls.go
+++ b/g2pubs/bls.go
@@ -250,14 +250,12 @@ func (s *Signature) VerifyAggregate(pubKeys []*PublicKey, msgs [][]byte) bool {
 	}
 
 	msgsSorted := sortByteArrays(msgsCopy)
-	lastMsg := []byte(nil)
 
 	// check for duplicates
-	for _, m := range msgsSorted {
-		if bytes.Equal(m, lastMsg) {
+	for i := 1; i < len(msgsSorted); i++ {
+		if bytes.Equal(msgsSorted[i], msgsSorted[i-1]) {
 			return false
 		}
-		lastMsg = m
 	}
 
 	lhs := bls.Pairing(s.s, bls.G2ProjectiveOne)
-- 
2.43.0


From 4d3bad8c2106f3e507a118b0afd1a12c986723b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 10/14] fix: assembly routines clobbered the frame pointer
 register

---
 asm/asm.go             | 3 +++
 primitivefuncs_amd64.s | 6 +++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/asm/asm.go b/asm/asm.go
index 8b995d8..6a34329 100644
--- a/asm/asm.go
+++ b/asm/asm.go
@@ -143,6 +143,7 @@ func main() {
 	*/
 
 	Implement("MultiplyFQRepr")
+	AllocLocal(8) // a non-empty frame makes the assembler save and restore BP
 	registers := make([]Register, 12)
 	registersUsed := make([]bool, 12)
 	for i := range registers {
@@ -253,6 +254,7 @@ func main() {
 	RET()
 
 	Implement("AddNoCarry")
+	AllocLocal(8) // a non-empty frame makes the assembler save and restore BP
 	aRegs := make([]Register, 6)
 	bRegs := make([]Register, 6)
 
@@ -273,6 +275,7 @@ func main() {
 	RET()
 
 	Implement("SubNoBorrow")
+	AllocLocal(8) // a non-empty frame makes the assembler save and restore BP
 	aRegs = make([]Register, 6)
 	bRegs = make([]Register, 6)
 
diff --git a/primitivefuncs_amd64.s b/primitivefuncs_amd64.s
index 44d3db2..4b81896 100644
--- a/primitivefuncs_amd64.s
+++ b/primitivefuncs_amd64.s
@@ -76,7 +76,7 @@ TEXT ·AddWithCarry(SB), $0-40
 	RET
 
 // func MultiplyFQRepr(a [6]uint64, b [6]uint64) (hi [6]uint64, lo [6]uint64)
-TEXT ·MultiplyFQRepr(SB), $0-192
+TEXT ·MultiplyFQRepr(SB), $8-192
 	// carry = 0
 	XORQ R10, R10
 	MOVQ a_0+0(FP), AX
@@ -1466,7 +1466,7 @@ TEXT ·MontReduce(SB), $96-144
 	RET
 
 // func AddNoCarry(a [6]uint64, b [6]uint64) [6]uint64
-TEXT ·AddNoCarry(SB), $0-144
+TEXT ·AddNoCarry(SB), $8-144
 	MOVQ a_0+0(FP), AX
 	MOVQ b_0+48(FP), CX
 	MOVQ a_1+8(FP), DX
@@ -1494,7 +1494,7 @@ TEXT ·AddNoCarry(SB), $0-144
 	RET
 
 // func SubNoBorrow(a [6]uint64, b [6]uint64) [6]uint64
-TEXT ·SubNoBorrow(SB), $0-144
+TEXT ·SubNoBorrow(SB), $8-144
 	MOVQ a_0+0(FP), AX
 	MOVQ b_0+48(FP), CX
 	MOVQ a_1+8(FP), DX
-- 
2.43.0


From 3af1f7da9698b95112f1c7b59cbb7f4ba2bfd542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 11/14] fix: SecretKey.GetFRElement returned the key's internal
 scalar

---
 g1pubs/bls.go | 5 ++++-
 g2pubs/bls.go | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/g1pubs/bls.go b/g1pubs/bls.go
index 5232186..04eb406 100644
--- a/g1pubs/bls.go
+++ b/g1pubs/bls.go
@@ -104,7 +104,10 @@ type SecretKey struct {
 
 // GetFRElement gets the underlying FR element.
 func (s SecretKey) GetFRElement() *bls.FR {
-	return s.f
+	if s.f == nil {
+		return nil
+	}
+	return s.f.Copy()
 }
 
 func (s SecretKey) String() string {
diff --git a/g2pubs/bls.go b/g2pubs/bls.go
index 0931c30..2a31406 100644
--- a/g2pubs/bls.go
+++ b/g2pubs/bls.go
@@ -104,7 +104,10 @@ type SecretKey struct {
 
 // GetFRElement gets the underlying FR element.
 func (s SecretKey) GetFRElement() *bls.FR {
-	return s.f
+	if s.f == nil {
+		return nil
+	}
+	return s.f.Copy()
 }
 
 func (s SecretKey) String() string {
-- 
2.43.0


From 444ea34b42723611d4ec8f1452a2df604369d266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:14 +0000
Subject: [PATCH 12/14] fix: add the hash-to-curve points on the target curve,
 not on the isogenous one

The addition formulas assume a = 0, so adding two equal map outputs before
the isogeny doubled with the wrong formula, and opposite ones gave the
identity, which the isogeny turned into a point off the curve.
---
 hash.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hash.go b/hash.go
index cfd6a3f..158a119 100644
--- a/hash.go
+++ b/hash.go
@@ -309,14 +309,14 @@ func ClearH(p *G1Affine) *G1Affine {
 }
 
 func optimizedSWUMap(t1 *FQ, t2 *FQ) *G1Affine {
-	Pp := optimizedSWUMapHelper(*t1)
+	// the group law only holds on the target curve, so map there before adding
+	Pp := iso11(optimizedSWUMapHelper(*t1))
 
 	if t2 != nil {
-		Pp2 := optimizedSWUMapHelper(*t2)
+		Pp2 := iso11(optimizedSWUMapHelper(*t2))
 
 		Pp = Pp.ToProjective().AddAffine(Pp2).ToAffine()
 	}
-	Pp = iso11(Pp)
 	return ClearH(Pp)
 }
 
@@ -389,14 +389,14 @@ func clearH2(p *G2Affine) *G2Affine {
 }
 
 func optimizedSWUMap2(t1 *FQ2, t2 *FQ2) *G2Affine {
-	Pp := OptimizedSWU2MapHelper(*t1)
+	// the group law only holds on the target curve, so map there before adding
+	Pp := iso3(OptimizedSWU2MapHelper(*t1))
 
 	if t2 != nil {
-		Pp2 := OptimizedSWU2MapHelper(*t2)
+		Pp2 := iso3(OptimizedSWU2MapHelper(*t2))
 
 		Pp = Pp.ToProjective().AddAffine(Pp2).ToAffine()
 	}
-	Pp = iso3(Pp)
 
 	return clearH2(Pp)
 }
-- 
2.43.0


From 4950211d4c4d88b9dc086a913f8ef45ff7c50dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:39 +0000
Subject: [PATCH 13/14] fix: map the kernel points of the 11-isogeny to the
 identity

All five x-coordinates of the kernel are those of rational points; dividing by
zero there gave a point off the curve.
---
 hash.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hash.go b/hash.go
index 158a119..52f79d0 100644
--- a/hash.go
+++ b/hash.go
@@ -195,6 +195,11 @@ func iso11(p *G1Affine) *G1Affine {
 		}
 	}
 
+	// points of the kernel go to the identity
+	if mapVals[1].IsZero() {
+		return G1AffineZero.Copy()
+	}
+
 	newX := mapVals[0]
 	newX.DivAssign(mapVals[1])
 
-- 
2.43.0


From cb0e79630b549d87a7ad2cf96add8fb13a40a0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:03 +0000
Subject: [PATCH 14/14] fix: the endomorphism used to clear the G2 cofactor
 keeps the identity

Its coordinates were mapped as if it were an affine point, so clearing the
cofactor of the identity gave a point off the curve.
---
 hash.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hash.go b/hash.go
index 52f79d0..496b504 100644
--- a/hash.go
+++ b/hash.go
@@ -344,6 +344,10 @@ var kQiX = FQReprToFQ(fqReprFromHexUnchecked("1a0111ea397fe699ec02408663d4de85aa
 var kQiY = FQReprToFQ(fqReprFromHexUnchecked("6af0e0437ff400b6831e36d6bd17ffe48395dabc2d3435e77f76e17009241c5ee67992f72ec05f4c81084fbede3cc09"))
 
 func psi(g *G2Affine) *G2Affine {
+	if g.IsZero() {
+		return g.Copy()
+	}
+
 	newX := fq2nqr.Copy()
 	qiX := iwsc.Copy()
 	qiX.MulAssign(g.x)
-- 
2.43.0

