From 41c42963d78f35b2b61e185b504cd73c0c353f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:30 +0000
Subject: [PATCH 01/41] fix: p256: adding the point at infinity must return the
 other operand

---
 crypto/p256/p256.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crypto/p256/p256.go b/crypto/p256/p256.go
index 288d2b2..003e556 100644
--- a/crypto/p256/p256.go
+++ b/crypto/p256/p256.go
@@ -77,10 +77,9 @@ func (p *P256) Add(a, b *P256) *P256 {
         p.Y = b.Y
         return p
     } else if b.IsZero() {
-        p.X = b.X
-        p.Y = b.Y
+        p.X = a.X
+        p.Y = a.Y
         return p
-
     }
     resx, resy := CURVE.Add(a.X, a.Y, b.X, b.Y)
     p.X = resx
-- 
2.43.0


From d81e1f3ab2e00902002e4014608012fd84dccedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:30 +0000
Subject: [PATCH 02/41] fix: p256: Neg must negate its argument, not its
 receiver

---
 crypto/p256/p256.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crypto/p256/p256.go b/crypto/p256/p256.go
index 003e556..c629206 100644
--- a/crypto/p256/p256.go
+++ b/crypto/p256/p256.go
@@ -58,13 +58,13 @@ func (p *P256) IsZero() bool {
 Neg returns the inverse of the given elliptic curve point.
 */
 func (p *P256) Neg(a *P256) *P256 {
-    // (X, Y) -> (X, X + Y)
+    // (X, Y) -> (X, -Y)
     if a.IsZero() {
         return p.SetInfinity()
     }
     one := new(big.Int).SetInt64(1)
     mone := new(big.Int).Sub(CURVE.N, one)
-    p.ScalarMult(p, mone)
+    p.ScalarMult(a, mone)
     return p
 }
 
-- 
2.43.0


From f8bef22c612868585bbf39a2dd1eaa681a3e3a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:00 +0000
Subject: [PATCH 03/41] fix: bulletproofs: derive the second Fiat-Shamir
 challenge from its own transcript

---
 bulletproofs/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bulletproofs/util.go b/bulletproofs/util.go
index 7a4fd37..0f9ee2d 100644
--- a/bulletproofs/util.go
+++ b/bulletproofs/util.go
@@ -71,7 +71,7 @@ func HashBP(A, S *p256.P256) (*big.Int, *big.Int, error) {
     buffer2.WriteString(S.X.String())
     buffer2.WriteString(S.Y.String())
     buffer2.WriteString(result1.String())
-    digest2.Write(buffer.Bytes())
+    digest2.Write(buffer2.Bytes())
     output2 := digest2.Sum(nil)
     tmp2 := output2[0:]
     result2 := new(big.Int).SetBytes(tmp2)
-- 
2.43.0


From e766d71af968bb486d1e88ec84d1dc09f772b67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:13 +0000
Subject: [PATCH 04/41] fix: bulletproofs: negative numbers are not powers of
 two

---
 bulletproofs/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bulletproofs/util.go b/bulletproofs/util.go
index 0f9ee2d..7cba23e 100644
--- a/bulletproofs/util.go
+++ b/bulletproofs/util.go
@@ -130,5 +130,5 @@ IsPowerOfTwo returns true for arguments that are a power of 2, false otherwise.
 https://stackoverflow.com/a/600306/844313
 */
 func IsPowerOfTwo(x int64) bool {
-    return (x != 0) && ((x & (x - 1)) == 0)
+    return (x > 0) && ((x & (x - 1)) == 0)
 }
-- 
2.43.0


From d2b4f4d12a5907a0db0b8935c97025bc4b8753f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:13 +0000
Subject: [PATCH 05/41] fix: bbsignatures: Keygen must report an error only on
 failure

---
 crypto/bbsignatures/bb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/bbsignatures/bb.go b/crypto/bbsignatures/bb.go
index 578ffea..b0b2346 100644
--- a/crypto/bbsignatures/bb.go
+++ b/crypto/bbsignatures/bb.go
@@ -52,7 +52,7 @@ func Keygen() (Keypair, error) {
         return kp, e
     }
     kp.Pubk, res = new(bn256.G1).Unmarshal(new(bn256.G1).ScalarBaseMult(kp.Privk).Marshal())
-    if res {
+    if !res {
         return kp, errors.New("Could not compute scalar multiplication.")
     }
     return kp, e
-- 
2.43.0


From bbe6c631392bf67e4c01f2e18f4c094254b60348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:13 +0000
Subject: [PATCH 06/41] fix: bbsignatures: Sign must return an error when the
 exponent is not invertible

---
 crypto/bbsignatures/bb.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crypto/bbsignatures/bb.go b/crypto/bbsignatures/bb.go
index b0b2346..1d5437b 100644
--- a/crypto/bbsignatures/bb.go
+++ b/crypto/bbsignatures/bb.go
@@ -67,6 +67,9 @@ func Sign(m *big.Int, privk *big.Int) (*bn256.G2, error) {
         signature *bn256.G2
     )
     inv := bn.ModInverse(bn.Mod(bn.Add(m, privk), bn256.Order), bn256.Order)
+    if inv == nil {
+        return nil, errors.New("Message can not be signed with this private key.")
+    }
     signature, res = new(bn256.G2).Unmarshal(new(bn256.G2).ScalarBaseMult(inv).Marshal())
     if res {
         return signature, nil
-- 
2.43.0


From 84d5161e936ef0d54ebb510166b8c9611d6be76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:13 +0000
Subject: [PATCH 07/41] fix: p256: IsOnCurve must not panic on the point at
 infinity

---
 crypto/p256/p256.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crypto/p256/p256.go b/crypto/p256/p256.go
index c629206..14b382c 100644
--- a/crypto/p256/p256.go
+++ b/crypto/p256/p256.go
@@ -248,6 +248,9 @@ IsOnCurve returns TRUE if and only if p has coordinates X and Y that satisfy the
 Elliptic Curve equation: y^2 = x^3 + 7.
 */
 func (p *P256) IsOnCurve() bool {
+    if p.X == nil || p.Y == nil {
+        return false
+    }
     // y² = x³ + 7
     y2 := new(big.Int).Mul(p.Y, p.Y)
     y2.Mod(y2, CURVE.P)
-- 
2.43.0


From 03e3c0be73d6c6e7d16188116b78a69f46ea462e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:13 +0000
Subject: [PATCH 08/41] fix: bn256: doubling must be correct when the receiver
 is the argument

---
 crypto/bn256/curve.go | 9 ++++++---
 crypto/bn256/twist.go | 7 +++++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/crypto/bn256/curve.go b/crypto/bn256/curve.go
index 6ad76e4..68b43ac 100644
--- a/crypto/bn256/curve.go
+++ b/crypto/bn256/curve.go
@@ -202,6 +202,10 @@ func (c *curvePoint) Double(a *curvePoint, pool *bnPool) {
     C_ := pool.Get().Mul(B, B)
     C_.Mod(C_, P)
 
+    // z3 is computed first, because c may be the same point as a.
+    z3 := pool.Get().Mul(a.y, a.z)
+    z3.Mod(z3, P)
+
     t := pool.Get().Add(a.x, B)
     t2 := pool.Get().Mul(t, t)
     t2.Mod(t2, P)
@@ -224,10 +228,9 @@ func (c *curvePoint) Double(a *curvePoint, pool *bnPool) {
     t2.Mod(t2, P)
     c.y.Sub(t2, t)
 
-    t.Mul(a.y, a.z)
-    t.Mod(t, P)
-    c.z.Add(t, t)
+    c.z.Add(z3, z3)
 
+    pool.Put(z3)
     pool.Put(A)
     pool.Put(B)
     pool.Put(C_)
diff --git a/crypto/bn256/twist.go b/crypto/bn256/twist.go
index d59b228..1da54b9 100644
--- a/crypto/bn256/twist.go
+++ b/crypto/bn256/twist.go
@@ -182,6 +182,9 @@ func (c *twistPoint) Double(a *twistPoint, pool *bnPool) {
     B := newGFp2(pool).Square(a.y, pool)
     C_ := newGFp2(pool).Square(B, pool)
 
+    // z3 is computed first, because c may be the same point as a.
+    z3 := newGFp2(pool).Mul(a.y, a.z, pool)
+
     t := newGFp2(pool).Add(a.x, B)
     t2 := newGFp2(pool).Square(t, pool)
     t.Sub(t2, A)
@@ -201,9 +204,9 @@ func (c *twistPoint) Double(a *twistPoint, pool *bnPool) {
     t2.Mul(e, c.y, pool)
     c.y.Sub(t2, t)
 
-    t.Mul(a.y, a.z, pool)
-    c.z.Add(t, t)
+    c.z.Add(z3, z3)
 
+    z3.Put(pool)
     A.Put(pool)
     B.Put(pool)
     C_.Put(pool)
-- 
2.43.0


From 0268d6ee12a4feec61378a2c075602e96dd38b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:13 +0000
Subject: [PATCH 09/41] fix: bn256: MakeAffine must keep the point at infinity
 of G2

---
 crypto/bn256/bn256.go | 4 ++++
 crypto/bn256/twist.go | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/crypto/bn256/bn256.go b/crypto/bn256/bn256.go
index 22275ed..b89eaed 100644
--- a/crypto/bn256/bn256.go
+++ b/crypto/bn256/bn256.go
@@ -283,6 +283,10 @@ func (e *G2) Neg(a *G2) *G2 {
 
 // Marshal converts n into a byte slice.
 func (n *G2) Marshal() []byte {
+    if n.p.IsInfinity() {
+        // The point at infinity is encoded as zeros, see Unmarshal.
+        return make([]byte, 4*256/8)
+    }
     n.p.MakeAffine(nil)
 
     xxBytes := new(big.Int).Mod(n.p.x.x, P).Bytes()
diff --git a/crypto/bn256/twist.go b/crypto/bn256/twist.go
index 1da54b9..105d021 100644
--- a/crypto/bn256/twist.go
+++ b/crypto/bn256/twist.go
@@ -242,6 +242,13 @@ func (c *twistPoint) MakeAffine(pool *bnPool) *twistPoint {
         return c
     }
 
+    if c.IsInfinity() {
+        c.x.SetZero()
+        c.y.SetOne()
+        c.t.SetZero()
+        return c
+    }
+
     zInv := newGFp2(pool).Invert(c.z, pool)
     t := newGFp2(pool).Mul(c.y, zInv, pool)
     zInv2 := newGFp2(pool).Square(zInv, pool)
-- 
2.43.0


From 722b6e646557e69c0088bb47e97989a57ac07cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:13 +0000
Subject: [PATCH 10/41] fix: bn256: GT.ScalarMult must handle negative
 exponents

---
 crypto/bn256/bn256.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crypto/bn256/bn256.go b/crypto/bn256/bn256.go
index b89eaed..4fc1a7a 100644
--- a/crypto/bn256/bn256.go
+++ b/crypto/bn256/bn256.go
@@ -360,6 +360,10 @@ func (e *GT) ScalarMult(a *GT, k *big.Int) *GT {
     if e.p == nil {
         e.p = newGFp12(nil)
     }
+    if k.Sign() < 0 {
+        e.p.Exp(a.p, new(big.Int).Abs(k), new(bnPool))
+        return e.Invert(e)
+    }
     e.p.Exp(a.p, k, new(bnPool))
     return e
 }
-- 
2.43.0


From 6c52dbd4eb053a97e28929ed7016278a50d90e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:13 +0000
Subject: [PATCH 11/41] fix: bn256: GT.Exp must set its receiver, not its
 argument

---
 crypto/bn256/bn256.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/crypto/bn256/bn256.go b/crypto/bn256/bn256.go
index 4fc1a7a..96cf493 100644
--- a/crypto/bn256/bn256.go
+++ b/crypto/bn256/bn256.go
@@ -369,13 +369,7 @@ func (e *GT) ScalarMult(a *GT, k *big.Int) *GT {
 }
 
 func (e *GT) Exp(a *GT, k *big.Int) *GT {
-    var returnValue *GT
-    if k.Cmp(big.NewInt(0)) >= 0 {
-        returnValue = a.ScalarMult(a, k)
-    } else {
-        returnValue = a.Invert(a.ScalarMult(a, new(big.Int).Abs(k)))
-    }
-    return returnValue
+    return e.ScalarMult(a, k)
 }
 
 func (e *GT) Invert(a *GT) *GT {
-- 
2.43.0


From 3457a7c06d04b61ccaa2b3c91c402025ed780b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:48 +0000
Subject: [PATCH 12/41] fix: bn256: String must be the same for equal group
 elements

---
 crypto/bn256/curve.go | 8 ++++++--
 crypto/bn256/twist.go | 5 ++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/crypto/bn256/curve.go b/crypto/bn256/curve.go
index 68b43ac..b02d645 100644
--- a/crypto/bn256/curve.go
+++ b/crypto/bn256/curve.go
@@ -48,8 +48,12 @@ func newCurvePoint(pool *bnPool) *curvePoint {
 }
 
 func (c *curvePoint) String() string {
-    c.MakeAffine(new(bnPool))
-    return "(" + c.x.String() + ", " + c.y.String() + ")"
+    a := newCurvePoint(nil)
+    a.Set(c)
+    a.MakeAffine(nil)
+    x := new(big.Int).Mod(a.x, P)
+    y := new(big.Int).Mod(a.y, P)
+    return "(" + x.String() + ", " + y.String() + ")"
 }
 
 func (c *curvePoint) Put(pool *bnPool) {
diff --git a/crypto/bn256/twist.go b/crypto/bn256/twist.go
index 105d021..e4bff61 100644
--- a/crypto/bn256/twist.go
+++ b/crypto/bn256/twist.go
@@ -65,7 +65,10 @@ func newTwistPoint(pool *bnPool) *twistPoint {
 }
 
 func (c *twistPoint) String() string {
-    return "(" + c.x.String() + ", " + c.y.String() + ", " + c.z.String() + ")"
+    a := newTwistPoint(nil)
+    a.Set(c)
+    a.MakeAffine(nil)
+    return "(" + a.x.String() + ", " + a.y.String() + ", " + a.z.String() + ")"
 }
 
 func (c *twistPoint) Put(pool *bnPool) {
-- 
2.43.0


From 411c4a237e8a5989c76bd5bc71fc767bb633a0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:48 +0000
Subject: [PATCH 13/41] fix: bn256: encoding or inspecting a group element must
 not write to it

---
 crypto/bn256/bn256.go | 52 +++++++++++++++++++++++++------------------
 crypto/bn256/gfp12.go | 10 +++++----
 2 files changed, 36 insertions(+), 26 deletions(-)

diff --git a/crypto/bn256/bn256.go b/crypto/bn256/bn256.go
index 96cf493..60a98f8 100644
--- a/crypto/bn256/bn256.go
+++ b/crypto/bn256/bn256.go
@@ -142,10 +142,13 @@ func (e *G1) Neg(a *G1) *G1 {
 
 // Marshal converts n to a byte slice.
 func (n *G1) Marshal() []byte {
-    n.p.MakeAffine(nil)
+    // Work on a copy: reading a group element must not change it.
+    p := newCurvePoint(nil)
+    p.Set(n.p)
+    p.MakeAffine(nil)
 
-    xBytes := new(big.Int).Mod(n.p.x, P).Bytes()
-    yBytes := new(big.Int).Mod(n.p.y, P).Bytes()
+    xBytes := new(big.Int).Mod(p.x, P).Bytes()
+    yBytes := new(big.Int).Mod(p.y, P).Bytes()
 
     // Each value is a 256-bit number.
     const numBytes = 256 / 8
@@ -287,12 +290,15 @@ func (n *G2) Marshal() []byte {
         // The point at infinity is encoded as zeros, see Unmarshal.
         return make([]byte, 4*256/8)
     }
-    n.p.MakeAffine(nil)
+    // Work on a copy: reading a group element must not change it.
+    p := newTwistPoint(nil)
+    p.Set(n.p)
+    p.MakeAffine(nil)
 
-    xxBytes := new(big.Int).Mod(n.p.x.x, P).Bytes()
-    xyBytes := new(big.Int).Mod(n.p.x.y, P).Bytes()
-    yxBytes := new(big.Int).Mod(n.p.y.x, P).Bytes()
-    yyBytes := new(big.Int).Mod(n.p.y.y, P).Bytes()
+    xxBytes := new(big.Int).Mod(p.x.x, P).Bytes()
+    xyBytes := new(big.Int).Mod(p.x.y, P).Bytes()
+    yxBytes := new(big.Int).Mod(p.y.x, P).Bytes()
+    yyBytes := new(big.Int).Mod(p.y.y, P).Bytes()
 
     // Each value is a 256-bit number.
     const numBytes = 256 / 8
@@ -425,20 +431,22 @@ func (e *GT) Neg(a *GT) *GT {
 
 // Marshal converts n into a byte slice.
 func (n *GT) Marshal() []byte {
-    n.p.Minimal()
-
-    xxxBytes := n.p.x.x.x.Bytes()
-    xxyBytes := n.p.x.x.y.Bytes()
-    xyxBytes := n.p.x.y.x.Bytes()
-    xyyBytes := n.p.x.y.y.Bytes()
-    xzxBytes := n.p.x.z.x.Bytes()
-    xzyBytes := n.p.x.z.y.Bytes()
-    yxxBytes := n.p.y.x.x.Bytes()
-    yxyBytes := n.p.y.x.y.Bytes()
-    yyxBytes := n.p.y.y.x.Bytes()
-    yyyBytes := n.p.y.y.y.Bytes()
-    yzxBytes := n.p.y.z.x.Bytes()
-    yzyBytes := n.p.y.z.y.Bytes()
+    // Work on a copy: reading a group element must not change it.
+    p := newGFp12(nil).Set(n.p)
+    p.Minimal()
+
+    xxxBytes := p.x.x.x.Bytes()
+    xxyBytes := p.x.x.y.Bytes()
+    xyxBytes := p.x.y.x.Bytes()
+    xyyBytes := p.x.y.y.Bytes()
+    xzxBytes := p.x.z.x.Bytes()
+    xzyBytes := p.x.z.y.Bytes()
+    yxxBytes := p.y.x.x.Bytes()
+    yxyBytes := p.y.x.y.Bytes()
+    yyxBytes := p.y.y.x.Bytes()
+    yyyBytes := p.y.y.y.Bytes()
+    yzxBytes := p.y.z.x.Bytes()
+    yzyBytes := p.y.z.y.Bytes()
 
     // Each value is a 256-bit number.
     const numBytes = 256 / 8
diff --git a/crypto/bn256/gfp12.go b/crypto/bn256/gfp12.go
index 1974234..42908df 100644
--- a/crypto/bn256/gfp12.go
+++ b/crypto/bn256/gfp12.go
@@ -68,13 +68,15 @@ func (e *gfP12) Minimal() {
 }
 
 func (e *gfP12) IsZero() bool {
-    e.Minimal()
-    return e.x.IsZero() && e.y.IsZero()
+    m := newGFp12(nil).Set(e)
+    m.Minimal()
+    return m.x.IsZero() && m.y.IsZero()
 }
 
 func (e *gfP12) IsOne() bool {
-    e.Minimal()
-    return e.x.IsZero() && e.y.IsOne()
+    m := newGFp12(nil).Set(e)
+    m.Minimal()
+    return m.x.IsZero() && m.y.IsOne()
 }
 
 func (e *gfP12) Conjugate(a *gfP12) *gfP12 {
-- 
2.43.0


From 5439950cc87c244b4a91f9d8f9926726eb01cb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:48 +0000
Subject: [PATCH 14/41] fix: bn256: Unmarshal must reject what is not an
 encoding of a group element

---
 crypto/bn256/bn256.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/crypto/bn256/bn256.go b/crypto/bn256/bn256.go
index 60a98f8..dce0ada 100644
--- a/crypto/bn256/bn256.go
+++ b/crypto/bn256/bn256.go
@@ -177,6 +177,10 @@ func (e *G1) Unmarshal(m []byte) (*G1, bool) {
     e.p.x.SetBytes(m[0*numBytes : 1*numBytes])
     e.p.y.SetBytes(m[1*numBytes : 2*numBytes])
 
+    if e.p.x.Cmp(P) >= 0 || e.p.y.Cmp(P) >= 0 {
+        return nil, false
+    }
+
     if (e.p.x.Sign() == 0 && e.p.y.Sign() == 0) ||
         (e.p.x.String() == "0" && e.p.y.String() == "1") {
         // This is the point at infinity.
@@ -331,6 +335,11 @@ func (e *G2) Unmarshal(m []byte) (*G2, bool) {
     e.p.y.x.SetBytes(m[2*numBytes : 3*numBytes])
     e.p.y.y.SetBytes(m[3*numBytes : 4*numBytes])
 
+    if e.p.x.x.Cmp(P) >= 0 || e.p.x.y.Cmp(P) >= 0 ||
+        e.p.y.x.Cmp(P) >= 0 || e.p.y.y.Cmp(P) >= 0 {
+        return nil, false
+    }
+
     if e.p.x.x.Sign() == 0 &&
         e.p.x.y.Sign() == 0 &&
         e.p.y.x.Sign() == 0 &&
@@ -346,6 +355,10 @@ func (e *G2) Unmarshal(m []byte) (*G2, bool) {
         if !e.p.IsOnCurve() {
             return nil, false
         }
+        // The twist has a cofactor: check that the point belongs to the group.
+        if !newTwistPoint(nil).Mul(e.p, Order, new(bnPool)).IsInfinity() {
+            return nil, false
+        }
     }
 
     return e, true
@@ -495,6 +508,16 @@ func (e *GT) Unmarshal(m []byte) (*GT, bool) {
     e.p.y.z.x.SetBytes(m[10*numBytes : 11*numBytes])
     e.p.y.z.y.SetBytes(m[11*numBytes : 12*numBytes])
 
+    for i := 0; i < 12; i++ {
+        if new(big.Int).SetBytes(m[i*numBytes:(i+1)*numBytes]).Cmp(P) >= 0 {
+            return nil, false
+        }
+    }
+    // Check that the field element belongs to the group.
+    if !newGFp12(nil).Exp(e.p, Order, new(bnPool)).IsOne() {
+        return nil, false
+    }
+
     return e, true
 }
 
-- 
2.43.0


From 8c8e232bf4dc72983e8f189d6bb1e7204cba5482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:21 +0000
Subject: [PATCH 15/41] fix: byteconversion: ToByteArray must return the
 minimum number of bytes for -2^(8k-1)

---
 util/byteconversion/conversion.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/byteconversion/conversion.go b/util/byteconversion/conversion.go
index eaa5c59..10f64f6 100644
--- a/util/byteconversion/conversion.go
+++ b/util/byteconversion/conversion.go
@@ -92,7 +92,9 @@ func ToByteArray(in *big.Int) []byte {
             return bytes
         }
     } else {
-        if (highestByte & 128) != 0 {
+        // -2^(8*length-1) is the only negative number with the highest bit set that fits in length bytes.
+        minValue := new(big.Int).Lsh(big.NewInt(-1), uint(8*length-1))
+        if (highestByte&128) != 0 && in.Cmp(minValue) != 0 {
 
             convertedBytes = make([]byte, length+1)
             convertedBytes[0] = 255
-- 
2.43.0


From 44497e4565c689fafbabc52b62e7b79f2db3cfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:21 +0000
Subject: [PATCH 16/41] fix: byteconversion: a minus sign without digits is not
 an integer

---
 util/byteconversion/parse.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/util/byteconversion/parse.go b/util/byteconversion/parse.go
index 0645c12..48c81b0 100644
--- a/util/byteconversion/parse.go
+++ b/util/byteconversion/parse.go
@@ -64,6 +64,11 @@ func ConvertToBigInt(in []byte) (*big.Int, error) {
 
     s := string(in)
     i := new(big.Int)
-    i.SetString(s, 10)
+    if len(in) == 0 {
+        return i, nil
+    }
+    if _, ok := i.SetString(s, 10); !ok {
+        return nil, errInvalidBigInteger
+    }
     return i, nil
 }
-- 
2.43.0


From 1e3326b3cbfd43998153c6684e3295bbf7aa8b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:21 +0000
Subject: [PATCH 17/41] fix: bulletproofs: verifying an inner product proof
 must not change it

---
 bulletproofs/bip.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bulletproofs/bip.go b/bulletproofs/bip.go
index badb065..f9cf9d0 100644
--- a/bulletproofs/bip.go
+++ b/bulletproofs/bip.go
@@ -227,7 +227,8 @@ func (proof InnerProductProof) Verify() (bool, error) {
 
     gprime := proof.Params.Gg
     hprime := proof.Params.Hh
-    Pprime := proof.Params.P
+    // Work on a copy: verifying must not change the proof.
+    Pprime := new(p256.P256).Multiply(proof.Params.P, new(p256.P256).SetInfinity())
     nprime := proof.N
     for i := int64(0); i < int64(logn); i++ {
         nprime = nprime / 2                        // (20)
-- 
2.43.0


From 09d9432ba739084ab18eb669cdfcd8d5174892c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:21 +0000
Subject: [PATCH 18/41] fix: bulletproofs: SetupGeneric must reject intervals
 it can not prove

---
 bulletproofs/bprp.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bulletproofs/bprp.go b/bulletproofs/bprp.go
index 7b196a5..f938980 100644
--- a/bulletproofs/bprp.go
+++ b/bulletproofs/bprp.go
@@ -18,6 +18,7 @@
 package bulletproofs
 
 import (
+    "errors"
     "math/big"
 )
 
@@ -45,6 +46,12 @@ SetupGeneric is responsible for calling the Setup algorithm for each
 BulletProof.
 */
 func SetupGeneric(a, b int64) (*bprp, error) {
+    if a > b {
+        return nil, errors.New("a must be less than or equal to b")
+    }
+    if uint64(b)-uint64(a) > uint64(MAX_RANGE_END) {
+        return nil, errors.New("the interval can not be larger than 2**32")
+    }
     params := new(bprp)
     params.A = a
     params.B = b
-- 
2.43.0


From 518d8427d0d14a9b387a188356b6212d0d0d53f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:44 +0000
Subject: [PATCH 19/41] fix: bulletproofs: Fiat-Shamir challenges must depend
 on the whole statement

---
 bulletproofs/bip.go  |  6 +++---
 bulletproofs/bp.go   |  8 ++++----
 bulletproofs/util.go | 11 ++++++++++-
 3 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/bulletproofs/bip.go b/bulletproofs/bip.go
index f9cf9d0..a856a99 100644
--- a/bulletproofs/bip.go
+++ b/bulletproofs/bip.go
@@ -177,7 +177,7 @@ func computeBipRecursive(a, b []*big.Int, g, h []*p256.P256, u, P *p256.P256, n
         R.Multiply(R, new(p256.P256).ScalarMult(u, cR))
 
         // Fiat-Shamir:                                                       // (26)
-        x, _, _ = HashBP(L, R)
+        x, _, _ = HashBP(L, R, P)
         xinv = bn.ModInverse(x, ORDER)
 
         // Compute g' = g[:n']^(x^-1) * g[n':]^(x)                            // (29)
@@ -231,8 +231,8 @@ func (proof InnerProductProof) Verify() (bool, error) {
     Pprime := new(p256.P256).Multiply(proof.Params.P, new(p256.P256).SetInfinity())
     nprime := proof.N
     for i := int64(0); i < int64(logn); i++ {
-        nprime = nprime / 2                        // (20)
-        x, _, _ = HashBP(proof.Ls[i], proof.Rs[i]) // (26)
+        nprime = nprime / 2                                // (20)
+        x, _, _ = HashBP(proof.Ls[i], proof.Rs[i], Pprime) // (26)
         xinv = bn.ModInverse(x, ORDER)
         // Compute g' = g[:n']^(x^-1) * g[n':]^(x)                            // (29)
         ngprime = vectorScalarExp(gprime[:nprime], xinv)
diff --git a/bulletproofs/bp.go b/bulletproofs/bp.go
index abe984a..f4b01b0 100644
--- a/bulletproofs/bp.go
+++ b/bulletproofs/bp.go
@@ -126,7 +126,7 @@ func Prove(secret *big.Int, params BulletProofSetupParams) (BulletProof, error)
     S := commitVectorBig(sL, sR, rho, params.H, params.Gg, params.Hh, params.N) // (47)
 
     // Fiat-Shamir heuristic to compute challenges y and z, corresponds to    (49)
-    y, z, _ := HashBP(A, S)
+    y, z, _ := HashBP(A, S, V)
 
     // ////////////////////////////////////////////////////////////////////////////
     // Second phase: page 20
@@ -179,7 +179,7 @@ func Prove(secret *big.Int, params BulletProofSetupParams) (BulletProof, error)
     T2, _ := CommitG1(t2, tau2, params.H) // (53)
 
     // Fiat-Shamir heuristic to compute 'random' challenge x
-    x, _, _ := HashBP(T1, T2)
+    x, _, _ := HashBP(T1, T2, A, S, V)
 
     // ////////////////////////////////////////////////////////////////////////////
     // Third phase                                                              //
@@ -244,8 +244,8 @@ Verify returns true if and only if the proof is valid.
 func (proof *BulletProof) Verify() (bool, error) {
     params := proof.Params
     // Recover x, y, z using Fiat-Shamir heuristic
-    x, _, _ := HashBP(proof.T1, proof.T2)
-    y, z, _ := HashBP(proof.A, proof.S)
+    x, _, _ := HashBP(proof.T1, proof.T2, proof.A, proof.S, proof.V)
+    y, z, _ := HashBP(proof.A, proof.S, proof.V)
 
     // Switch generators                                                   // (64)
     hprime := updateGenerators(params.Hh, y, params.N)
diff --git a/bulletproofs/util.go b/bulletproofs/util.go
index 7cba23e..8fe90e5 100644
--- a/bulletproofs/util.go
+++ b/bulletproofs/util.go
@@ -50,8 +50,9 @@ func powerOf(x *big.Int, n int64) []*big.Int {
 
 /*
 Hash is responsible for the computing a Zp element given elements from GT and G1.
+The optional context contains the other elements the challenges must depend on.
 */
-func HashBP(A, S *p256.P256) (*big.Int, *big.Int, error) {
+func HashBP(A, S *p256.P256, context ...*p256.P256) (*big.Int, *big.Int, error) {
 
     digest1 := sha256.New()
     var buffer bytes.Buffer
@@ -59,6 +60,10 @@ func HashBP(A, S *p256.P256) (*big.Int, *big.Int, error) {
     buffer.WriteString(A.Y.String())
     buffer.WriteString(S.X.String())
     buffer.WriteString(S.Y.String())
+    for _, p := range context {
+        buffer.WriteString(p.X.String())
+        buffer.WriteString(p.Y.String())
+    }
     digest1.Write(buffer.Bytes())
     output1 := digest1.Sum(nil)
     tmp1 := output1[0:]
@@ -70,6 +75,10 @@ func HashBP(A, S *p256.P256) (*big.Int, *big.Int, error) {
     buffer2.WriteString(A.Y.String())
     buffer2.WriteString(S.X.String())
     buffer2.WriteString(S.Y.String())
+    for _, p := range context {
+        buffer2.WriteString(p.X.String())
+        buffer2.WriteString(p.Y.String())
+    }
     buffer2.WriteString(result1.String())
     digest2.Write(buffer2.Bytes())
     output2 := digest2.Sum(nil)
-- 
2.43.0


From 86988e6f768f5f2bd7473b0fd66e12d359e0477c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:44 +0000
Subject: [PATCH 20/41] fix: bulletproofs: the inner product proof must be
 about the range proof it comes with

---
 bulletproofs/bp.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/bulletproofs/bp.go b/bulletproofs/bp.go
index f4b01b0..ffb1f03 100644
--- a/bulletproofs/bp.go
+++ b/bulletproofs/bp.go
@@ -326,7 +326,23 @@ func (proof *BulletProof) Verify() (bool, error) {
     c67 := rP.IsZero()
 
     // Verify Inner Product Proof ################################################
-    ok, _ := proof.InnerProductProof.Verify()
+    // The statement of the inner product proof is computed from the range proof,
+    // it can not be chosen by the prover.
+    ipParams, err := setupInnerProduct(params.H, params.Gg, hprime, proof.Tprime, params.N)
+    if err != nil {
+        return false, err
+    }
+    xip, _ := hashIP(params.Gg, hprime, proof.Commit, proof.Tprime, params.N)
+    ux := new(p256.P256).ScalarMult(ipParams.Uu, xip)
+    ipParams.P = new(p256.P256).Multiply(proof.Commit, new(p256.P256).ScalarMult(ux, proof.Tprime))
+    ipProof := proof.InnerProductProof
+    ipProof.N = params.N
+    ipProof.U = ux
+    ipProof.Params = ipParams
+    ok, err := ipProof.Verify()
+    if err != nil {
+        return false, err
+    }
 
     result := c65 && c67 && ok
 
-- 
2.43.0


From 3432594133dc52a0c3fca17d98f1511a9a2de3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:19 +0000
Subject: [PATCH 21/41] fix: bulletproofs: malformed inner product proofs must
 be rejected without panicking

---
 bulletproofs/bip.go  | 31 +++++++++++++++++++++++++++++++
 bulletproofs/util.go | 21 +++++++++++++++++++++
 2 files changed, 52 insertions(+)

diff --git a/bulletproofs/bip.go b/bulletproofs/bip.go
index a856a99..08d0b7b 100644
--- a/bulletproofs/bip.go
+++ b/bulletproofs/bip.go
@@ -214,10 +214,41 @@ func computeBipRecursive(a, b []*big.Int, g, h []*p256.P256, u, P *p256.P256, n
     return proof
 }
 
+/*
+check returns an error if the proof is incomplete or its parts do not fit together, which
+can be the case if it was received from someone else.
+*/
+func (proof InnerProductProof) check() error {
+    n := len(proof.Params.Gg)
+    if n == 0 || proof.N != int64(n) || len(proof.Params.Hh) != n {
+        return errors.New("inner product proof has wrong number of generators")
+    }
+    if len(proof.Ls) >= 63 || int64(1)<<uint(len(proof.Ls)) != proof.N || len(proof.Rs) != len(proof.Ls) {
+        return errors.New("inner product proof has wrong number of rounds")
+    }
+    points := []*p256.P256{proof.U, proof.Params.P}
+    points = append(points, proof.Params.Gg...)
+    points = append(points, proof.Params.Hh...)
+    points = append(points, proof.Ls...)
+    points = append(points, proof.Rs...)
+    for _, p := range points {
+        if !isPoint(p) {
+            return errors.New("inner product proof contains an invalid point")
+        }
+    }
+    if proof.A == nil || proof.B == nil {
+        return errors.New("inner product proof is incomplete")
+    }
+    return nil
+}
+
 /*
 Verify is responsible for the verification of the Inner Product Proof.
 */
 func (proof InnerProductProof) Verify() (bool, error) {
+    if err := proof.check(); err != nil {
+        return false, err
+    }
 
     logn := len(proof.Ls)
     var (
diff --git a/bulletproofs/util.go b/bulletproofs/util.go
index 8fe90e5..48f324e 100644
--- a/bulletproofs/util.go
+++ b/bulletproofs/util.go
@@ -88,6 +88,27 @@ func HashBP(A, S *p256.P256, context ...*p256.P256) (*big.Int, *big.Int, error)
     return result1, result2, nil
 }
 
+/*
+isPoint returns true if and only if p is a point of the curve, with reduced coordinates,
+or the point at infinity.
+*/
+func isPoint(p *p256.P256) bool {
+    if p == nil {
+        return false
+    }
+    if p.IsZero() {
+        return true
+    }
+    return isReduced(p.X, p256.CURVE.P) && isReduced(p.Y, p256.CURVE.P) && p.IsOnCurve()
+}
+
+/*
+isReduced returns true if and only if x belongs to [0, modulo).
+*/
+func isReduced(x, modulo *big.Int) bool {
+    return x != nil && x.Sign() >= 0 && x.Cmp(modulo) < 0
+}
+
 /*
 VectorExp computes Prod_i^n{a[i]^b[i]}.
 */
-- 
2.43.0


From 72bff9957989916cb641385ddc77900b20f8b40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:19 +0000
Subject: [PATCH 22/41] fix: bulletproofs: malformed range proofs must be
 rejected without panicking

---
 bulletproofs/bp.go | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/bulletproofs/bp.go b/bulletproofs/bp.go
index ffb1f03..b3bb98b 100644
--- a/bulletproofs/bp.go
+++ b/bulletproofs/bp.go
@@ -238,10 +238,42 @@ func Prove(secret *big.Int, params BulletProofSetupParams) (BulletProof, error)
     return proof, nil
 }
 
+/*
+check returns an error if the proof is incomplete, which can be the case if it was received
+from someone else.
+*/
+func (proof *BulletProof) check() error {
+    n := proof.Params.N
+    if n < 1 || n > 32 {
+        return errors.New("proof has invalid bit-length")
+    }
+    if int64(len(proof.Params.Gg)) != n || int64(len(proof.Params.Hh)) != n {
+        return errors.New("proof has wrong number of generators")
+    }
+    points := []*p256.P256{proof.V, proof.A, proof.S, proof.T1, proof.T2, proof.Commit, proof.Params.H}
+    points = append(points, proof.Params.Gg...)
+    points = append(points, proof.Params.Hh...)
+    for _, p := range points {
+        if !isPoint(p) {
+            return errors.New("proof contains an invalid point")
+        }
+    }
+    ip := proof.InnerProductProof
+    for _, x := range []*big.Int{proof.Taux, proof.Mu, proof.Tprime, ip.A, ip.B} {
+        if !isReduced(x, ORDER) {
+            return errors.New("proof contains an invalid scalar")
+        }
+    }
+    return nil
+}
+
 /*
 Verify returns true if and only if the proof is valid.
 */
 func (proof *BulletProof) Verify() (bool, error) {
+    if err := proof.check(); err != nil {
+        return false, err
+    }
     params := proof.Params
     // Recover x, y, z using Fiat-Shamir heuristic
     x, _, _ := HashBP(proof.T1, proof.T2, proof.A, proof.S, proof.V)
-- 
2.43.0


From d50a889fb5b8c5b61a94a9de5a6a814eaa9fb7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:19 +0000
Subject: [PATCH 23/41] fix: bulletproofs: the verifier must not trust the
 generators in the proof

---
 bulletproofs/bp.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/bulletproofs/bp.go b/bulletproofs/bp.go
index b3bb98b..0bab606 100644
--- a/bulletproofs/bp.go
+++ b/bulletproofs/bp.go
@@ -258,6 +258,19 @@ func (proof *BulletProof) check() error {
             return errors.New("proof contains an invalid point")
         }
     }
+    // The generators are not secret, but they can not be chosen by the prover.
+    expected, err := Setup(int64(1) << uint(n))
+    if err != nil {
+        return err
+    }
+    generators := append(append([]*p256.P256{expected.G, expected.H}, expected.Gg...), expected.Hh...)
+    given := append(append([]*p256.P256{proof.Params.G, proof.Params.H}, proof.Params.Gg...), proof.Params.Hh...)
+    for i := range generators {
+        if given[i] == nil || given[i].IsZero() ||
+            given[i].X.Cmp(generators[i].X) != 0 || given[i].Y.Cmp(generators[i].Y) != 0 {
+            return errors.New("proof uses generators that do not come from Setup")
+        }
+    }
     ip := proof.InnerProductProof
     for _, x := range []*big.Int{proof.Taux, proof.Mu, proof.Tprime, ip.A, ip.B} {
         if !isReduced(x, ORDER) {
-- 
2.43.0


From 35d369b552f79dfa52d0b51bd9a179a4f1b8531a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:48 +0000
Subject: [PATCH 24/41] fix: bulletproofs: both halves of a generic range proof
 must be about the same secret

---
 bulletproofs/bp.go   |  9 ++++++++-
 bulletproofs/bprp.go | 28 +++++++++++++++++++++++-----
 2 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/bulletproofs/bp.go b/bulletproofs/bp.go
index 0bab606..81f4aa0 100644
--- a/bulletproofs/bp.go
+++ b/bulletproofs/bp.go
@@ -102,6 +102,14 @@ eprint version of Bulletproofs papers:
 https://eprint.iacr.org/2017/1066.pdf
 */
 func Prove(secret *big.Int, params BulletProofSetupParams) (BulletProof, error) {
+    gamma, _ := rand.Int(rand.Reader, ORDER)
+    return proveWithGamma(secret, gamma, params)
+}
+
+/*
+proveWithGamma computes the ZK rangeproof for the commitment with randomness gamma.
+*/
+func proveWithGamma(secret, gamma *big.Int, params BulletProofSetupParams) (BulletProof, error) {
     var (
         proof BulletProof
     )
@@ -110,7 +118,6 @@ func Prove(secret *big.Int, params BulletProofSetupParams) (BulletProof, error)
     // ////////////////////////////////////////////////////////////////////////////
 
     // commitment to v and gamma
-    gamma, _ := rand.Int(rand.Reader, ORDER)
     V, _ := CommitG1(secret, gamma, params.H)
 
     // aL, aR and commitment: (A, alpha)
diff --git a/bulletproofs/bprp.go b/bulletproofs/bprp.go
index f938980..fe5ea67 100644
--- a/bulletproofs/bprp.go
+++ b/bulletproofs/bprp.go
@@ -18,8 +18,11 @@
 package bulletproofs
 
 import (
+    "crypto/rand"
     "errors"
     "math/big"
+
+    "github.com/ing-bank/zkrp/crypto/p256"
 )
 
 /*
@@ -34,9 +37,12 @@ type bprp struct {
 }
 
 /*
-ProofBPRP stores the generic ZKRP.
+ProofBPRP stores the generic ZKRP for the interval [A, B). Both proofs are about the
+same secret: the commitments use the same randomness, so that their difference is public.
 */
 type ProofBPRP struct {
+    A  int64
+    B  int64
     P1 BulletProof
     P2 BulletProof
 }
@@ -74,7 +80,11 @@ BulletProofs, as explained in Section 4.3 from the following paper:
 https://infoscience.epfl.ch/record/128718/files/CCS08.pdf
 */
 func ProveGeneric(secret *big.Int, params *bprp) (ProofBPRP, error) {
-    var proof ProofBPRP
+    proof := ProofBPRP{A: params.A, B: params.B}
+    gamma, err := rand.Int(rand.Reader, ORDER)
+    if err != nil {
+        return proof, err
+    }
 
     // x - b + 2^N
     p2 := new(big.Int).SetInt64(MAX_RANGE_END)
@@ -82,14 +92,14 @@ func ProveGeneric(secret *big.Int, params *bprp) (ProofBPRP, error) {
     xb.Add(xb, p2)
 
     var err1 error
-    proof.P1, err1 = Prove(xb, params.BP1)
+    proof.P1, err1 = proveWithGamma(xb, gamma, params.BP1)
     if err1 != nil {
         return proof, err1
     }
 
     xa := new(big.Int).Sub(secret, new(big.Int).SetInt64(params.A))
     var err2 error
-    proof.P2, err2 = Prove(xa, params.BP2)
+    proof.P2, err2 = proveWithGamma(xa, gamma, params.BP2)
     if err2 != nil {
         return proof, err2
     }
@@ -110,5 +120,13 @@ func (proof ProofBPRP) Verify() (bool, error) {
         return false, err2
     }
 
-    return ok1 && ok2, nil
+    // The secrets x - b + 2^N and x - a must come from the same x
+    shift := new(big.Int).SetInt64(MAX_RANGE_END)
+    shift.Sub(shift, new(big.Int).SetInt64(proof.B))
+    shift.Add(shift, new(big.Int).SetInt64(proof.A))
+    V1 := new(p256.P256).ScalarBaseMult(shift)
+    V1.Multiply(V1, proof.P2.V)
+    V1.Multiply(V1.Neg(V1), proof.P1.V)
+
+    return V1.IsZero(), nil
 }
-- 
2.43.0


From 2285781c40db97ea9fbeeb9bf9a72f1a77dd4ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:35 +0000
Subject: [PATCH 25/41] fix: ccs08: the verifier must compute the challenge
 itself

---
 ccs08/ccs08.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/ccs08/ccs08.go b/ccs08/ccs08.go
index 602d579..db53399 100644
--- a/ccs08/ccs08.go
+++ b/ccs08/ccs08.go
@@ -266,6 +266,15 @@ func VerifySet(proof_out *proofSet, p *paramsSet) (bool, error) {
         r1, r2 bool
         p1, p2 *bn256.GT
     )
+    // The challenge can not be chosen by the prover
+    c, err := HashSet(proof_out.a, proof_out.D)
+    if err != nil {
+        return false, err
+    }
+    if bn.Mod(c, bn256.Order).Cmp(proof_out.c) != 0 {
+        return false, nil
+    }
+
     // D == C^c.h^ zr.g^zsig ?
     D = new(bn256.G2).ScalarMult(proof_out.C, proof_out.c)
     D.Add(D, new(bn256.G2).ScalarMult(p.H, proof_out.zr))
@@ -302,6 +311,15 @@ func VerifyUL(proof_out *proofUL, p *paramsUL) (bool, error) {
         r1, r2 bool
         p1, p2 *bn256.GT
     )
+    // The challenge can not be chosen by the prover
+    c, err := Hash(proof_out.a, proof_out.D)
+    if err != nil {
+        return false, err
+    }
+    if bn.Mod(c, bn256.Order).Cmp(proof_out.c) != 0 {
+        return false, nil
+    }
+
     // D == C^c.h^ zr.g^zsig ?
     D = new(bn256.G2).ScalarMult(proof_out.C, proof_out.c)
     D.Add(D, new(bn256.G2).ScalarMult(p.H, proof_out.zr))
-- 
2.43.0


From 46c4eb87b13914327c4f098bb5b0b60cc7015027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:35 +0000
Subject: [PATCH 26/41] fix: ccs08: the challenge must depend on the commitment
 and the blinded signatures

---
 ccs08/ccs08.go | 10 ++++++----
 util/util.go   | 12 ++++++++++--
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/ccs08/ccs08.go b/ccs08/ccs08.go
index db53399..8e28176 100644
--- a/ccs08/ccs08.go
+++ b/ccs08/ccs08.go
@@ -179,7 +179,7 @@ func ProveSet(x int64, r *big.Int, p paramsSet) (proofSet, error) {
     // so that it is possible to delegate the commitment computation to an external party.
     proof_out.C, _ = Commit(new(big.Int).SetInt64(x), r, p.H)
     // Fiat-Shamir heuristic
-    proof_out.c, _ = HashSet(proof_out.a, proof_out.D)
+    proof_out.c, _ = HashSet(proof_out.a, proof_out.D, proof_out.C, proof_out.V)
     proof_out.c = bn.Mod(proof_out.c, bn256.Order)
 
     proof_out.zr = bn.Sub(proof_out.m, bn.Multiply(r, proof_out.c))
@@ -243,7 +243,8 @@ func ProveUL(x, r *big.Int, p paramsUL) (proofUL, error) {
     // so that it is possible to delegate the commitment computation to an external party.
     proof_out.C, _ = Commit(x, r, p.H)
     // Fiat-Shamir heuristic
-    proof_out.c, _ = Hash(proof_out.a, proof_out.D)
+    context := append([]*bn256.G2{proof_out.C}, proof_out.V...)
+    proof_out.c, _ = Hash(proof_out.a, proof_out.D, context...)
     proof_out.c = bn.Mod(proof_out.c, bn256.Order)
 
     proof_out.zr = bn.Sub(proof_out.m, bn.Multiply(r, proof_out.c))
@@ -267,7 +268,7 @@ func VerifySet(proof_out *proofSet, p *paramsSet) (bool, error) {
         p1, p2 *bn256.GT
     )
     // The challenge can not be chosen by the prover
-    c, err := HashSet(proof_out.a, proof_out.D)
+    c, err := HashSet(proof_out.a, proof_out.D, proof_out.C, proof_out.V)
     if err != nil {
         return false, err
     }
@@ -312,7 +313,8 @@ func VerifyUL(proof_out *proofUL, p *paramsUL) (bool, error) {
         p1, p2 *bn256.GT
     )
     // The challenge can not be chosen by the prover
-    c, err := Hash(proof_out.a, proof_out.D)
+    context := append([]*bn256.G2{proof_out.C}, proof_out.V...)
+    c, err := Hash(proof_out.a, proof_out.D, context...)
     if err != nil {
         return false, err
     }
diff --git a/util/util.go b/util/util.go
index 3f7a682..d239a6f 100644
--- a/util/util.go
+++ b/util/util.go
@@ -76,11 +76,15 @@ func CommitG1(x, r *big.Int, h *p256.P256) (*p256.P256, error) {
 
 /*
 HashSet is responsible for the computing a Zp element given elements from GT and G2.
+The optional context contains the other elements the challenge must depend on.
 */
-func HashSet(a *bn256.GT, D *bn256.G2) (*big.Int, error) {
+func HashSet(a *bn256.GT, D *bn256.G2, context ...*bn256.G2) (*big.Int, error) {
     digest := sha256.New()
     digest.Write([]byte(a.String()))
     digest.Write([]byte(D.String()))
+    for _, p := range context {
+        digest.Write([]byte(p.String()))
+    }
     output := digest.Sum(nil)
     tmp := output[0:]
     return byteconversion.FromByteArray(tmp)
@@ -88,13 +92,17 @@ func HashSet(a *bn256.GT, D *bn256.G2) (*big.Int, error) {
 
 /*
 Hash is responsible for the computing a Zp element given elements from GT and G2.
+The optional context contains the other elements the challenge must depend on.
 */
-func Hash(a []*bn256.GT, D *bn256.G2) (*big.Int, error) {
+func Hash(a []*bn256.GT, D *bn256.G2, context ...*bn256.G2) (*big.Int, error) {
     digest := sha256.New()
     for i := range a {
         digest.Write([]byte(a[i].String()))
     }
     digest.Write([]byte(D.String()))
+    for _, p := range context {
+        digest.Write([]byte(p.String()))
+    }
     output := digest.Sum(nil)
     tmp := output[0:]
     return byteconversion.FromByteArray(tmp)
-- 
2.43.0


From 0358761710436390d790e6f9f92e155a68370c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:35 +0000
Subject: [PATCH 27/41] fix: ccs08: reject the identity as blinded signature

---
 ccs08/ccs08.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ccs08/ccs08.go b/ccs08/ccs08.go
index 8e28176..dcd90bd 100644
--- a/ccs08/ccs08.go
+++ b/ccs08/ccs08.go
@@ -286,7 +286,8 @@ func VerifySet(proof_out *proofSet, p *paramsSet) (bool, error) {
     pDBytes := proof_out.D.Marshal()
     r1 = bytes.Equal(DBytes, pDBytes)
 
-    r2 = true
+    // The identity would satisfy the equation below for any element
+    r2 = !proof_out.V.IsZero()
     // a == [e(V,y)^c].[e(V,g)^-zsig].[e(g,g)^zv]
     p1 = bn256.Pair(p.kp.Pubk, proof_out.V)
     p1.ScalarMult(p1, proof_out.c)
@@ -339,6 +340,8 @@ func VerifyUL(proof_out *proofUL, p *paramsUL) (bool, error) {
 
     r2 = true
     for i = 0; i < p.l; i++ {
+        // The identity would satisfy the equation below for any digit
+        r2 = r2 && !proof_out.V[i].IsZero()
         // a == [e(V,y)^c].[e(V,g)^-zsig].[e(g,g)^zv]
         p1 = bn256.Pair(p.kp.Pubk, proof_out.V[i])
         p1.ScalarMult(p1, proof_out.c)
-- 
2.43.0


From 62a4f942aa82ad9a4965c121a9e4e711cb478c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:35 +0000
Subject: [PATCH 28/41] fix: ccs08: incomplete proofs must be rejected without
 panicking

---
 ccs08/ccs08.go | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/ccs08/ccs08.go b/ccs08/ccs08.go
index dcd90bd..82155ff 100644
--- a/ccs08/ccs08.go
+++ b/ccs08/ccs08.go
@@ -258,6 +258,31 @@ func ProveUL(x, r *big.Int, p paramsUL) (proofUL, error) {
     return proof_out, nil
 }
 
+/*
+complete returns true if and only if the proof has all its components.
+*/
+func (proof_out *proofSet) complete() bool {
+    return proof_out.V != nil && proof_out.D != nil && proof_out.C != nil && proof_out.a != nil &&
+        proof_out.zsig != nil && proof_out.zv != nil && proof_out.c != nil && proof_out.zr != nil
+}
+
+/*
+complete returns true if and only if the proof has all its components, for l digits.
+*/
+func (proof_out *proofUL) complete(l int64) bool {
+    if proof_out.D == nil || proof_out.C == nil || proof_out.c == nil || proof_out.zr == nil ||
+        int64(len(proof_out.V)) != l || int64(len(proof_out.a)) != l ||
+        int64(len(proof_out.zsig)) != l || int64(len(proof_out.zv)) != l {
+        return false
+    }
+    for i := range proof_out.V {
+        if proof_out.V[i] == nil || proof_out.a[i] == nil || proof_out.zsig[i] == nil || proof_out.zv[i] == nil {
+            return false
+        }
+    }
+    return true
+}
+
 /*
 VerifySet is used to validate the ZK Set Membership proof. It returns true iff the proof is valid.
 */
@@ -267,6 +292,10 @@ func VerifySet(proof_out *proofSet, p *paramsSet) (bool, error) {
         r1, r2 bool
         p1, p2 *bn256.GT
     )
+    if !proof_out.complete() {
+        return false, errors.New("proof is incomplete")
+    }
+
     // The challenge can not be chosen by the prover
     c, err := HashSet(proof_out.a, proof_out.D, proof_out.C, proof_out.V)
     if err != nil {
@@ -313,6 +342,10 @@ func VerifyUL(proof_out *proofUL, p *paramsUL) (bool, error) {
         r1, r2 bool
         p1, p2 *bn256.GT
     )
+    if !proof_out.complete(p.l) {
+        return false, errors.New("proof is incomplete")
+    }
+
     // The challenge can not be chosen by the prover
     context := append([]*bn256.G2{proof_out.C}, proof_out.V...)
     c, err := Hash(proof_out.a, proof_out.D, context...)
-- 
2.43.0


From 27a024e8b9dc53495c66733bcd88eec505a1ec6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:35 +0000
Subject: [PATCH 29/41] fix: ccs08: the public parameters must not contain the
 signing key

---
 ccs08/ccs08.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ccs08/ccs08.go b/ccs08/ccs08.go
index 82155ff..a7961e0 100644
--- a/ccs08/ccs08.go
+++ b/ccs08/ccs08.go
@@ -109,6 +109,8 @@ func SetupSet(s []int64) (paramsSet, error) {
         sig_i, _ := bbsignatures.Sign(new(big.Int).SetInt64(int64(s[i])), p.kp.Privk)
         p.signatures[s[i]] = sig_i
     }
+    // The prover receives these parameters: nobody may sign other elements.
+    p.kp.Privk = nil
     // Issue #12: p.H must be computed using MapToPoint method.
     h := intconversion.BigFromBase10("18560948149108576432482904553159745978835170526553990798435819795989606410925")
     p.H = new(bn256.G2).ScalarBaseMult(h)
@@ -132,6 +134,8 @@ func SetupUL(u, l int64) (paramsUL, error) {
         sig_i, _ := bbsignatures.Sign(new(big.Int).SetInt64(i), p.kp.Privk)
         p.signatures[strconv.FormatInt(i, 10)] = sig_i
     }
+    // The prover receives these parameters: nobody may sign other elements.
+    p.kp.Privk = nil
     // Issue #12: p.H must be computed using MapToPoint method.
     h := intconversion.BigFromBase10("18560948149108576432482904553159745978835170526553990798435819795989606410925")
     p.H = new(bn256.G2).ScalarBaseMult(h)
-- 
2.43.0


From 0bb3a7febd6d752b3e06085daa0186aa70dfd409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:01 +0000
Subject: [PATCH 30/41] fix: ccs08: proofs must not contain the random numbers
 that hide the secret

---
 ccs08/ccs08.go | 59 +++++++++++++++++++++++++-------------------------
 1 file changed, 30 insertions(+), 29 deletions(-)

diff --git a/ccs08/ccs08.go b/ccs08/ccs08.go
index a7961e0..5458de4 100644
--- a/ccs08/ccs08.go
+++ b/ccs08/ccs08.go
@@ -79,8 +79,8 @@ type proofSet struct {
     V              *bn256.G2
     D, C           *bn256.G2
     a              *bn256.GT
-    s, t, zsig, zv *big.Int
-    c, m, zr       *big.Int
+    zsig, zv       *big.Int
+    c, zr          *big.Int
 }
 
 /*
@@ -90,8 +90,8 @@ type proofUL struct {
     V              []*bn256.G2
     D, C           *bn256.G2
     a              []*bn256.GT
-    s, t, zsig, zv []*big.Int
-    c, m, zr       *big.Int
+    zsig, zv       []*big.Int
+    c, zr          *big.Int
 }
 
 /*
@@ -149,14 +149,14 @@ ProveSet method is used to produce the ZK Set Membership proof.
 */
 func ProveSet(x int64, r *big.Int, p paramsSet) (proofSet, error) {
     var (
-        v         *big.Int
-        proof_out proofSet
+        v, s, t, m *big.Int
+        proof_out  proofSet
     )
 
     // Initialize variables
     proof_out.D = new(bn256.G2)
     proof_out.D.SetInfinity()
-    proof_out.m, _ = rand.Int(rand.Reader, bn256.Order)
+    m, _ = rand.Int(rand.Reader, bn256.Order)
 
     v, _ = rand.Int(rand.Reader, bn256.Order)
     A, ok := p.signatures[x]
@@ -166,17 +166,17 @@ func ProveSet(x int64, r *big.Int, p paramsSet) (proofSet, error) {
     }
 
     // D = g^s.H^m
-    D := new(bn256.G2).ScalarMult(p.H, proof_out.m)
-    proof_out.s, _ = rand.Int(rand.Reader, bn256.Order)
-    aux := new(bn256.G2).ScalarBaseMult(proof_out.s)
+    D := new(bn256.G2).ScalarMult(p.H, m)
+    s, _ = rand.Int(rand.Reader, bn256.Order)
+    aux := new(bn256.G2).ScalarBaseMult(s)
     D.Add(D, aux)
 
     proof_out.V = new(bn256.G2).ScalarMult(A, v)
-    proof_out.t, _ = rand.Int(rand.Reader, bn256.Order)
+    t, _ = rand.Int(rand.Reader, bn256.Order)
     proof_out.a = bn256.Pair(G1, proof_out.V)
-    proof_out.a.ScalarMult(proof_out.a, proof_out.s)
+    proof_out.a.ScalarMult(proof_out.a, s)
     proof_out.a.Invert(proof_out.a)
-    proof_out.a.Add(proof_out.a, new(bn256.GT).ScalarMult(E, proof_out.t))
+    proof_out.a.Add(proof_out.a, new(bn256.GT).ScalarMult(E, t))
     proof_out.D.Add(proof_out.D, D)
 
     // Consider passing C as input,
@@ -186,11 +186,11 @@ func ProveSet(x int64, r *big.Int, p paramsSet) (proofSet, error) {
     proof_out.c, _ = HashSet(proof_out.a, proof_out.D, proof_out.C, proof_out.V)
     proof_out.c = bn.Mod(proof_out.c, bn256.Order)
 
-    proof_out.zr = bn.Sub(proof_out.m, bn.Multiply(r, proof_out.c))
+    proof_out.zr = bn.Sub(m, bn.Multiply(r, proof_out.c))
     proof_out.zr = bn.Mod(proof_out.zr, bn256.Order)
-    proof_out.zsig = bn.Sub(proof_out.s, bn.Multiply(new(big.Int).SetInt64(x), proof_out.c))
+    proof_out.zsig = bn.Sub(s, bn.Multiply(new(big.Int).SetInt64(x), proof_out.c))
     proof_out.zsig = bn.Mod(proof_out.zsig, bn256.Order)
-    proof_out.zv = bn.Sub(proof_out.t, bn.Multiply(v, proof_out.c))
+    proof_out.zv = bn.Sub(t, bn.Multiply(v, proof_out.c))
     proof_out.zv = bn.Mod(proof_out.zv, bn256.Order)
     return proof_out, nil
 }
@@ -201,7 +201,8 @@ ProveUL method is used to produce the ZKRP proof that secret x belongs to the in
 func ProveUL(x, r *big.Int, p paramsUL) (proofUL, error) {
     var (
         i         int64
-        v         []*big.Int
+        v, s, t   []*big.Int
+        m         *big.Int
         proof_out proofUL
     )
     decx, _ := Decompose(x, p.u, p.l)
@@ -210,30 +211,30 @@ func ProveUL(x, r *big.Int, p paramsUL) (proofUL, error) {
     v = make([]*big.Int, p.l)
     proof_out.V = make([]*bn256.G2, p.l)
     proof_out.a = make([]*bn256.GT, p.l)
-    proof_out.s = make([]*big.Int, p.l)
-    proof_out.t = make([]*big.Int, p.l)
+    s = make([]*big.Int, p.l)
+    t = make([]*big.Int, p.l)
     proof_out.zsig = make([]*big.Int, p.l)
     proof_out.zv = make([]*big.Int, p.l)
     proof_out.D = new(bn256.G2)
     proof_out.D.SetInfinity()
-    proof_out.m, _ = rand.Int(rand.Reader, bn256.Order)
+    m, _ = rand.Int(rand.Reader, bn256.Order)
 
     // D = H^m
-    D := new(bn256.G2).ScalarMult(p.H, proof_out.m)
+    D := new(bn256.G2).ScalarMult(p.H, m)
     for i = 0; i < p.l; i++ {
         v[i], _ = rand.Int(rand.Reader, bn256.Order)
         A, ok := p.signatures[strconv.FormatInt(decx[i], 10)]
         if ok {
             proof_out.V[i] = new(bn256.G2).ScalarMult(A, v[i])
-            proof_out.s[i], _ = rand.Int(rand.Reader, bn256.Order)
-            proof_out.t[i], _ = rand.Int(rand.Reader, bn256.Order)
+            s[i], _ = rand.Int(rand.Reader, bn256.Order)
+            t[i], _ = rand.Int(rand.Reader, bn256.Order)
             proof_out.a[i] = bn256.Pair(G1, proof_out.V[i])
-            proof_out.a[i].ScalarMult(proof_out.a[i], proof_out.s[i])
+            proof_out.a[i].ScalarMult(proof_out.a[i], s[i])
             proof_out.a[i].Invert(proof_out.a[i])
-            proof_out.a[i].Add(proof_out.a[i], new(bn256.GT).ScalarMult(E, proof_out.t[i]))
+            proof_out.a[i].Add(proof_out.a[i], new(bn256.GT).ScalarMult(E, t[i]))
 
             ui := new(big.Int).Exp(new(big.Int).SetInt64(p.u), new(big.Int).SetInt64(i), nil)
-            muisi := new(big.Int).Mul(proof_out.s[i], ui)
+            muisi := new(big.Int).Mul(s[i], ui)
             muisi = bn.Mod(muisi, bn256.Order)
             aux := new(bn256.G2).ScalarBaseMult(muisi)
             D.Add(D, aux)
@@ -251,12 +252,12 @@ func ProveUL(x, r *big.Int, p paramsUL) (proofUL, error) {
     proof_out.c, _ = Hash(proof_out.a, proof_out.D, context...)
     proof_out.c = bn.Mod(proof_out.c, bn256.Order)
 
-    proof_out.zr = bn.Sub(proof_out.m, bn.Multiply(r, proof_out.c))
+    proof_out.zr = bn.Sub(m, bn.Multiply(r, proof_out.c))
     proof_out.zr = bn.Mod(proof_out.zr, bn256.Order)
     for i = 0; i < p.l; i++ {
-        proof_out.zsig[i] = bn.Sub(proof_out.s[i], bn.Multiply(new(big.Int).SetInt64(decx[i]), proof_out.c))
+        proof_out.zsig[i] = bn.Sub(s[i], bn.Multiply(new(big.Int).SetInt64(decx[i]), proof_out.c))
         proof_out.zsig[i] = bn.Mod(proof_out.zsig[i], bn256.Order)
-        proof_out.zv[i] = bn.Sub(proof_out.t[i], bn.Multiply(v[i], proof_out.c))
+        proof_out.zv[i] = bn.Sub(t[i], bn.Multiply(v[i], proof_out.c))
         proof_out.zv[i] = bn.Mod(proof_out.zv[i], bn256.Order)
     }
     return proof_out, nil
-- 
2.43.0


From 4994a2260f6ac13cf80bb60ef1f0a1f7ff2fcb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:10 +0000
Subject: [PATCH 31/41] fix: ccs08: the number of digits must fit the size of
 the interval

---
 ccs08/ccs08.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ccs08/ccs08.go b/ccs08/ccs08.go
index 5458de4..7ad0b33 100644
--- a/ccs08/ccs08.go
+++ b/ccs08/ccs08.go
@@ -439,7 +439,8 @@ func (zkrp *ccs08) Setup(a, b int64) error {
         u = 57
         if u != 0 {
             l = 0
-            for i := b; i > 0; i = i / u {
+            // u^l must be at least the size of the interval
+            for i := uint64(b) - uint64(a); i > 0; i = i / uint64(u) {
                 l = l + 1
             }
             params_out, e := SetupUL(u, l)
-- 
2.43.0


From 8b1d8a65e2aa767411d4d4df72279973e92b6d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:10 +0000
Subject: [PATCH 32/41] fix: ccs08: both halves of a range proof must be about
 the same secret

---
 ccs08/ccs08.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ccs08/ccs08.go b/ccs08/ccs08.go
index 7ad0b33..b046e65 100644
--- a/ccs08/ccs08.go
+++ b/ccs08/ccs08.go
@@ -485,5 +485,15 @@ Verify is responsible for validating the proof.
 func (zkrp *ccs08) Verify() (bool, error) {
     first, _ := VerifyUL(&zkrp.proof_out.p1, zkrp.p.p)
     second, _ := VerifyUL(&zkrp.proof_out.p2, zkrp.p.p)
-    return first && second, nil
+    if !first || !second {
+        return false, nil
+    }
+
+    // The secrets x - b + ul and x - a must come from the same x
+    shift := new(big.Int).Exp(new(big.Int).SetInt64(zkrp.p.p.u), new(big.Int).SetInt64(zkrp.p.p.l), nil)
+    shift.Sub(shift, new(big.Int).SetInt64(zkrp.p.b))
+    shift.Add(shift, new(big.Int).SetInt64(zkrp.p.a))
+    C := new(bn256.G2).ScalarBaseMult(shift)
+    C.Add(C, zkrp.proof_out.p2.C)
+    return bytes.Equal(C.Marshal(), zkrp.proof_out.p1.C.Marshal()), nil
 }
-- 
2.43.0


From 469bf868710ef539f45315ca9438a1d83131bc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:37 +0000
Subject: [PATCH 33/41] fix: ccs08: the discrete logarithm of H must not be
 public

---
 ccs08/ccs08.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/ccs08/ccs08.go b/ccs08/ccs08.go
index b046e65..66bbf71 100644
--- a/ccs08/ccs08.go
+++ b/ccs08/ccs08.go
@@ -36,7 +36,6 @@ import (
     "github.com/ing-bank/zkrp/crypto/bn256"
     . "github.com/ing-bank/zkrp/util"
     "github.com/ing-bank/zkrp/util/bn"
-    "github.com/ing-bank/zkrp/util/intconversion"
 )
 
 /*
@@ -111,9 +110,13 @@ func SetupSet(s []int64) (paramsSet, error) {
     }
     // The prover receives these parameters: nobody may sign other elements.
     p.kp.Privk = nil
-    // Issue #12: p.H must be computed using MapToPoint method.
-    h := intconversion.BigFromBase10("18560948149108576432482904553159745978835170526553990798435819795989606410925")
-    p.H = new(bn256.G2).ScalarBaseMult(h)
+    // Issue #12: p.H should be computed using MapToPoint method. Until then it is chosen at
+    // random by the trusted setup, like the signing key: nobody may know its discrete logarithm.
+    var errH error
+    _, p.H, errH = bn256.RandomG2(rand.Reader)
+    if errH != nil {
+        return p, errH
+    }
     return p, nil
 }
 
@@ -136,9 +139,13 @@ func SetupUL(u, l int64) (paramsUL, error) {
     }
     // The prover receives these parameters: nobody may sign other elements.
     p.kp.Privk = nil
-    // Issue #12: p.H must be computed using MapToPoint method.
-    h := intconversion.BigFromBase10("18560948149108576432482904553159745978835170526553990798435819795989606410925")
-    p.H = new(bn256.G2).ScalarBaseMult(h)
+    // Issue #12: p.H should be computed using MapToPoint method. Until then it is chosen at
+    // random by the trusted setup, like the signing key: nobody may know its discrete logarithm.
+    var errH error
+    _, p.H, errH = bn256.RandomG2(rand.Reader)
+    if errH != nil {
+        return p, errH
+    }
     p.u = u
     p.l = l
     return p, nil
-- 
2.43.0


From 401e1fda5442bfb8bb85b3e2b27bc70a9d87f599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:37 +0000
Subject: [PATCH 34/41] fix: ccs08: Prove and Verify must return an error when
 Setup did not succeed

---
 ccs08/ccs08.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ccs08/ccs08.go b/ccs08/ccs08.go
index 66bbf71..ba30dc6 100644
--- a/ccs08/ccs08.go
+++ b/ccs08/ccs08.go
@@ -470,6 +470,9 @@ func (zkrp *ccs08) Setup(a, b int64) error {
 Prove method is responsible for generating the zero knowledge proof.
 */
 func (zkrp *ccs08) Prove() error {
+    if zkrp.p == nil {
+        return errors.New("Setup must succeed before Prove")
+    }
     ul := new(big.Int).Exp(new(big.Int).SetInt64(zkrp.p.p.u), new(big.Int).SetInt64(zkrp.p.p.l), nil)
 
     // x - b + ul
@@ -490,6 +493,9 @@ func (zkrp *ccs08) Prove() error {
 Verify is responsible for validating the proof.
 */
 func (zkrp *ccs08) Verify() (bool, error) {
+    if zkrp.p == nil {
+        return false, errors.New("Setup must succeed before Verify")
+    }
     first, _ := VerifyUL(&zkrp.proof_out.p1, zkrp.p.p)
     second, _ := VerifyUL(&zkrp.proof_out.p2, zkrp.p.p)
     if !first || !second {
-- 
2.43.0


From 113434f04cb54d2cf3e46911012954caf75ae0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:50 +0000
Subject: [PATCH 35/41] fix: bn256: negating a point of G2 must be correct when
 the receiver is the argument

---
 crypto/bn256/twist.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crypto/bn256/twist.go b/crypto/bn256/twist.go
index e4bff61..8affcc2 100644
--- a/crypto/bn256/twist.go
+++ b/crypto/bn256/twist.go
@@ -270,8 +270,7 @@ func (c *twistPoint) MakeAffine(pool *bnPool) *twistPoint {
 
 func (c *twistPoint) Negative(a *twistPoint, pool *bnPool) {
     c.x.Set(a.x)
-    c.y.SetZero()
-    c.y.Sub(c.y, a.y)
+    c.y.Negative(a.y)
     c.z.Set(a.z)
     c.t.SetZero()
 }
-- 
2.43.0


From e0950d4239e305ebd12feff9ed41c48e1c1f63a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:36 +0000
Subject: [PATCH 36/41] fix: bn256: the pairing of a negated affine point of G2
 must be correct

---
 crypto/bn256/twist.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crypto/bn256/twist.go b/crypto/bn256/twist.go
index 8affcc2..9261117 100644
--- a/crypto/bn256/twist.go
+++ b/crypto/bn256/twist.go
@@ -242,6 +242,8 @@ func (c *twistPoint) Mul(a *twistPoint, scalar *big.Int, pool *bnPool) *twistPoi
 
 func (c *twistPoint) MakeAffine(pool *bnPool) *twistPoint {
     if c.z.IsOne() {
+        // t caches the square of z, but not every operation maintains it.
+        c.t.SetOne()
         return c
     }
 
-- 
2.43.0


From 3a5152fbfb63a38389882168455ad8c908d8196b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:06 +0000
Subject: [PATCH 37/41] fix: util: CommitG1 must be correct when both factors
 are equal

---
 util/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/util.go b/util/util.go
index d239a6f..8191657 100644
--- a/util/util.go
+++ b/util/util.go
@@ -70,7 +70,7 @@ message x, and randomness r, it outputs g^x.h^r.
 func CommitG1(x, r *big.Int, h *p256.P256) (*p256.P256, error) {
     var C = new(p256.P256).ScalarBaseMult(x)
     Hr := new(p256.P256).ScalarMult(h, r)
-    C.Add(C, Hr)
+    C.Multiply(C, Hr)
     return C, nil
 }
 
-- 
2.43.0


From bcddb4f2ec6fab363db05a986745decd3f94c337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:11 +0000
Subject: [PATCH 38/41] fix: bulletproofs: the verifier must not take equal
 points for opposite ones

---
 bulletproofs/bp.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bulletproofs/bp.go b/bulletproofs/bp.go
index 81f4aa0..2b7cd1d 100644
--- a/bulletproofs/bp.go
+++ b/bulletproofs/bp.go
@@ -339,7 +339,7 @@ func (proof *BulletProof) Verify() (bool, error) {
     // S^x
     Sx := new(p256.P256).ScalarMult(proof.S, x)
     // A.S^x
-    ASx := new(p256.P256).Add(proof.A, Sx)
+    ASx := new(p256.P256).Multiply(proof.A, Sx)
 
     // g^-z
     mz := bn.Sub(ORDER, z)
@@ -359,12 +359,12 @@ func (proof *BulletProof) Verify() (bool, error) {
     zynz22n, _ := VectorAdd(zyn, z22n)
 
     lP := new(p256.P256)
-    lP.Add(ASx, gpmz)
+    lP.Multiply(ASx, gpmz)
 
     // h'^(z.y^n + z^2.2^n)
     hprimeexp, _ := VectorExp(hprime, zynz22n)
 
-    lP.Add(lP, hprimeexp)
+    lP.Multiply(lP, hprimeexp)
 
     // Compute P - rhs  #################### Condition (67) ######################
 
@@ -374,7 +374,7 @@ func (proof *BulletProof) Verify() (bool, error) {
 
     // Subtract lhs and rhs and compare with poitn at infinity
     lP = lP.Neg(lP)
-    rP.Add(rP, lP)
+    rP.Multiply(rP, lP)
     c67 := rP.IsZero()
 
     // Verify Inner Product Proof ################################################
-- 
2.43.0


From 24d111dead59aab2b422ed547485608e83bac51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:11 +0000
Subject: [PATCH 39/41] fix: a Setup that fails leaves no half-made parameters
 in the range object

---
 ccs08/ccs08.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ccs08/ccs08.go b/ccs08/ccs08.go
index ba30dc6..f36f3e7 100644
--- a/ccs08/ccs08.go
+++ b/ccs08/ccs08.go
@@ -451,11 +451,15 @@ func (zkrp *ccs08) Setup(a, b int64) error {
                 l = l + 1
             }
             params_out, e := SetupUL(u, l)
+            if e != nil {
+                zkrp.p = nil
+                return e
+            }
             p.p = &params_out
             p.a = a
             p.b = b
             zkrp.p = p
-            return e
+            return nil
         } else {
             zkrp.p = nil
             return errors.New("u is zero")
-- 
2.43.0


From 4a2f5e4e9830f79686dac5da927f05b1299efd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:14 +0000
Subject: [PATCH 40/41] fix: the CCS08 setups fail when their key cannot be
 generated

---
 ccs08/ccs08.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ccs08/ccs08.go b/ccs08/ccs08.go
index f36f3e7..a7a30ca 100644
--- a/ccs08/ccs08.go
+++ b/ccs08/ccs08.go
@@ -101,7 +101,11 @@ func SetupSet(s []int64) (paramsSet, error) {
         i int
         p paramsSet
     )
-    p.kp, _ = bbsignatures.Keygen()
+    var errKey error
+    p.kp, errKey = bbsignatures.Keygen()
+    if errKey != nil {
+        return p, errKey
+    }
 
     p.signatures = make(map[int64]*bn256.G2)
     for i = 0; i < len(s); i++ {
@@ -130,7 +134,11 @@ func SetupUL(u, l int64) (paramsUL, error) {
         i int64
         p paramsUL
     )
-    p.kp, _ = bbsignatures.Keygen()
+    var errKey error
+    p.kp, errKey = bbsignatures.Keygen()
+    if errKey != nil {
+        return p, errKey
+    }
 
     p.signatures = make(map[string]*bn256.G2)
     for i = 0; i < u; i++ {
-- 
2.43.0


From 10a5f94bb7f54ef86c1526fb969bb2ac844a7947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:29 +0000
Subject: [PATCH 41/41] fix: G1.SetZero works on the zero value, like the other
 operations

---
 crypto/bn256/bn256.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crypto/bn256/bn256.go b/crypto/bn256/bn256.go
index dce0ada..fd3e563 100644
--- a/crypto/bn256/bn256.go
+++ b/crypto/bn256/bn256.go
@@ -399,8 +399,11 @@ func (e *GT) Invert(a *GT) *GT {
     return e
 }
 
-// SetZero returns true iff a = 0.
+// SetZero sets e to the identity element.
 func (e *G1) SetZero() {
+    if e.p == nil {
+        e.p = newCurvePoint(nil)
+    }
     e.p.SetInfinity()
 }
 
-- 
2.43.0

