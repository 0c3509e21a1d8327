From 3243df275294f37c25e7950ff12cf11fad4dd5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:03 +0000
Subject: [PATCH 01/32] fix: SHA3 absorbs every byte of a word

Hash::Update assembled each full 64-bit word from p[0] and seven copies of p[1].
---
 secure-computation-library/include/scl/hash.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/secure-computation-library/include/scl/hash.h b/secure-computation-library/include/scl/hash.h
index e0b66a0..45ff57a 100644
--- a/secure-computation-library/include/scl/hash.h
+++ b/secure-computation-library/include/scl/hash.h
@@ -146,9 +146,9 @@ Hash<B> &Hash<B>::Update(const unsigned char *bytes, std::size_t nbytes) {
   for (std::size_t i = 0; i < words; ++i) {
     const uint64_t t =
         (uint64_t)(p[0]) | ((uint64_t)(p[1]) << 8 * 1) |
-        ((uint64_t)(p[1]) << 8 * 2) | ((uint64_t)(p[1]) << 8 * 3) |
-        ((uint64_t)(p[1]) << 8 * 4) | ((uint64_t)(p[1]) << 8 * 5) |
-        ((uint64_t)(p[1]) << 8 * 6) | ((uint64_t)(p[1]) << 8 * 7);
+        ((uint64_t)(p[2]) << 8 * 2) | ((uint64_t)(p[3]) << 8 * 3) |
+        ((uint64_t)(p[4]) << 8 * 4) | ((uint64_t)(p[5]) << 8 * 5) |
+        ((uint64_t)(p[6]) << 8 * 6) | ((uint64_t)(p[7]) << 8 * 7);
 
     mState[mWordIndex] ^= t;
 
-- 
2.43.0


From eb6b90a63f79691e6d3c32578d0ecda11abdbe42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:03 +0000
Subject: [PATCH 02/32] fix: reduce field elements read from text modulo the
 prime

Elements parsed from a number >= p were left unreduced, so they compared
unequal to, and printed differently from, the element they are congruent to.
---
 secure-computation-library/src/scl/math/fields/mersenne127.cc | 1 +
 secure-computation-library/src/scl/math/fields/mersenne61.cc  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/secure-computation-library/src/scl/math/fields/mersenne127.cc b/secure-computation-library/src/scl/math/fields/mersenne127.cc
index ba81252..e90c7db 100644
--- a/secure-computation-library/src/scl/math/fields/mersenne127.cc
+++ b/secure-computation-library/src/scl/math/fields/mersenne127.cc
@@ -28,6 +28,7 @@ void _::Invert(u128 &t) {
 void _::FromString(u128 &dest, const std::string &str,
                    enum scl::NumberBase base) {
   FromStringSimpleType(dest, str, base);
+  dest = dest % p;
 }
 
 struct u256 {
diff --git a/secure-computation-library/src/scl/math/fields/mersenne61.cc b/secure-computation-library/src/scl/math/fields/mersenne61.cc
index e5a3c95..f0c9096 100644
--- a/secure-computation-library/src/scl/math/fields/mersenne61.cc
+++ b/secure-computation-library/src/scl/math/fields/mersenne61.cc
@@ -29,6 +29,7 @@ void _::Invert(u64& t) {
 void _::FromString(u64& dest, const std::string& str,
                    enum scl::NumberBase base) {
   FromStringSimpleType(dest, str, base);
+  dest = dest % p;
 }
 
 void _::Multiply(u64& t, const u64& v) {
-- 
2.43.0


From 0b195bb0f7ac9f37b4e284fec08f7e94c29b0a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:03 +0000
Subject: [PATCH 03/32] fix: parsing an empty base64 string reads before its
 start

---
 secure-computation-library/include/scl/math/str.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/secure-computation-library/include/scl/math/str.h b/secure-computation-library/include/scl/math/str.h
index 032ebb2..a014aee 100644
--- a/secure-computation-library/include/scl/math/str.h
+++ b/secure-computation-library/include/scl/math/str.h
@@ -156,7 +156,7 @@ void FromStringBase64(T& t, const std::string& s) {
 
   t = 0;
   std::size_t i = 0;
-  bool has_padding = s[n - 1] == '=';
+  bool has_padding = n > 0 && s[n - 1] == '=';
   auto m = n - (has_padding ? 4 : 0);
 
   while (i < m) {
-- 
2.43.0


From 06b397c940f9352e786ad10da5d5bbc77ea35688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:03 +0000
Subject: [PATCH 04/32] fix: undefined shift in the Z2k mask for K equal to the
 storage width

For K = 64 and K = 128 the mask was computed as 1 << K.
---
 secure-computation-library/include/scl/math/z2k/details.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/secure-computation-library/include/scl/math/z2k/details.h b/secure-computation-library/include/scl/math/z2k/details.h
index 039b729..b9407a1 100644
--- a/secure-computation-library/include/scl/math/z2k/details.h
+++ b/secure-computation-library/include/scl/math/z2k/details.h
@@ -95,7 +95,7 @@ void InvertZ2k(T& v) {
   v = z;
 }
 
-#define _SCL_MASK(T, K) ((static_cast<T>(1) << K) - 1)
+#define _SCL_MASK(T, K) (static_cast<T>(-1) >> (8 * sizeof(T) - (K)))
 
 /**
  * @brief Compute equality modulo a power of 2.
-- 
2.43.0


From f8db9a4c85ac4b263726ae038fcbc737f0e57b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:03 +0000
Subject: [PATCH 05/32] fix: read exactly ByteSize() bytes at any alignment

Z2k::Read read the whole storage type (past the end of a short element) and the
readers dereferenced possibly misaligned pointers.
---
 secure-computation-library/include/scl/math/z2k/details.h     | 3 ++-
 secure-computation-library/src/scl/math/fields/mersenne127.cc | 2 +-
 secure-computation-library/src/scl/math/fields/mersenne61.cc  | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/secure-computation-library/include/scl/math/z2k/details.h b/secure-computation-library/include/scl/math/z2k/details.h
index b9407a1..7248574 100644
--- a/secure-computation-library/include/scl/math/z2k/details.h
+++ b/secure-computation-library/include/scl/math/z2k/details.h
@@ -110,7 +110,8 @@ bool EqualZ2k(const T& a, const T& b) {
  */
 template <typename T, std::size_t K, std::enable_if_t<(K <= 128), bool> = true>
 void ReadZ2k(T& v, const unsigned char* src) {
-  v = *(const T*)src;
+  v = 0;
+  std::memcpy(&v, src, (K - 1) / 8 + 1);
   v &= _SCL_MASK(T, K);
 }
 
diff --git a/secure-computation-library/src/scl/math/fields/mersenne127.cc b/secure-computation-library/src/scl/math/fields/mersenne127.cc
index e90c7db..6705fcd 100644
--- a/secure-computation-library/src/scl/math/fields/mersenne127.cc
+++ b/secure-computation-library/src/scl/math/fields/mersenne127.cc
@@ -68,7 +68,7 @@ void _::Multiply(u128 &t, const u128 &v) {
 std::string _::ToString(const u128 &v) { return scl::details::ToString(v); }
 
 void _::FromBytes(u128 &dest, const unsigned char *src) {
-  dest = *(const u128 *)src;
+  std::memcpy(&dest, src, sizeof(u128));
   dest = dest % p;
 }
 
diff --git a/secure-computation-library/src/scl/math/fields/mersenne61.cc b/secure-computation-library/src/scl/math/fields/mersenne61.cc
index f0c9096..760cdba 100644
--- a/secure-computation-library/src/scl/math/fields/mersenne61.cc
+++ b/secure-computation-library/src/scl/math/fields/mersenne61.cc
@@ -47,7 +47,7 @@ void _::Multiply(u64& t, const u64& v) {
 std::string _::ToString(const u64& v) { return scl::details::ToString(v); }
 
 void _::FromBytes(u64& dest, const unsigned char* src) {
-  dest = *(const u64*)src;
+  std::memcpy(&dest, src, sizeof(u64));
   dest = dest % p;
 }
 
-- 
2.43.0


From 49c465823bd00bdd5a8e6b3cb3ba80cc7c5bf495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:17 +0000
Subject: [PATCH 06/32] fix: in-place scaling of a vector or matrix by one of
 its own entries

The scalar is taken by reference, so it changed under the loop once its own
entry had been scaled.
---
 secure-computation-library/include/scl/math/mat.h | 3 ++-
 secure-computation-library/include/scl/math/vec.h | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/secure-computation-library/include/scl/math/mat.h b/secure-computation-library/include/scl/math/mat.h
index 0ba5ca8..c220164 100644
--- a/secure-computation-library/include/scl/math/mat.h
+++ b/secure-computation-library/include/scl/math/mat.h
@@ -259,7 +259,8 @@ class Mat {
    * @return this scaled by \p scalar.
    */
   Mat& ScalarMultiplyInPlace(const T& scalar) {
-    for (auto& v : mValues) v *= scalar;
+    const T factor = scalar;  // scalar may be one of our own entries
+    for (auto& v : mValues) v *= factor;
     return *this;
   };
 
diff --git a/secure-computation-library/include/scl/math/vec.h b/secure-computation-library/include/scl/math/vec.h
index 213090a..e583c58 100644
--- a/secure-computation-library/include/scl/math/vec.h
+++ b/secure-computation-library/include/scl/math/vec.h
@@ -257,7 +257,8 @@ class Vec {
    * @return a scaled version of this vector.
    */
   Vec& ScalarMultiplyInPlace(const T& scalar) {
-    for (auto& v : mValues) v *= scalar;
+    const T factor = scalar;  // scalar may be one of our own entries
+    for (auto& v : mValues) v *= factor;
     return *this;
   };
 
-- 
2.43.0


From de2a9fc98bef7bb4eb35b031824da4402c10f28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:01 +0000
Subject: [PATCH 07/32] fix: linear systems that are not square

SolveLinearSystem reported success for underdetermined systems (fewer equations
than unknowns) and failure for uniquely solvable overdetermined ones.
---
 .../include/scl/math/la.h                     | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/secure-computation-library/include/scl/math/la.h b/secure-computation-library/include/scl/math/la.h
index fceb288..53d003d 100644
--- a/secure-computation-library/include/scl/math/la.h
+++ b/secure-computation-library/include/scl/math/la.h
@@ -202,6 +202,7 @@ bool HasSolution(const Mat<T>& A, bool unique_only) {
   auto n = A.Rows();
   auto m = A.Cols();
   T zero;
+  std::size_t rank = 0;
   for (std::size_t i = 0; i < n; ++i) {
     bool all_zero = true;
     for (std::size_t j = 0; j < m - 1; ++j) {
@@ -210,13 +211,13 @@ bool HasSolution(const Mat<T>& A, bool unique_only) {
     // No solution is the case when Rank(A) != Rank(A') where A' is A without
     // the last column (the augmentation). I.e., when row(A', i) == 0, but
     // row(A, i) != 0.
-    if (unique_only) {
-      if (all_zero) return false;
-    } else {
-      if (all_zero && A(i, m - 1) != zero) return false;
-    }
+    if (!all_zero)
+      rank++;
+    else if (A(i, m - 1) != zero)
+      return false;
   }
-  return true;
+  // a consistent system has a unique solution if there are no free variables.
+  return !unique_only || rank == m - 1;
 }
 
 /**
@@ -275,7 +276,11 @@ bool SolveLinearSystem(Vec<T>& x, const Mat<T>& A, const Vec<T>& b) {
     return false;
   }
 
-  x = ExtractSolution(aug);
+  // the solution is unique, so the first rows of aug are [I | x].
+  const auto m = A.Cols();
+  Vec<T> solution(m);
+  for (std::size_t i = 0; i < m; ++i) solution[i] = aug(i, m);
+  x = solution;
   return true;
 }
 
-- 
2.43.0


From 9524f7236099aff665af8a4b9b8bf2738a4e4b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:02 +0000
Subject: [PATCH 08/32] fix: reconstruction with detection checks every share
 it is given

Only the first 2t+1 shares were looked at, although an error is documented to be
reported whenever the provided shares do not all lie on a degree t polynomial.
---
 secure-computation-library/include/scl/ss/shamir.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/secure-computation-library/include/scl/ss/shamir.h b/secure-computation-library/include/scl/ss/shamir.h
index 27ca41e..fef362b 100644
--- a/secure-computation-library/include/scl/ss/shamir.h
+++ b/secure-computation-library/include/scl/ss/shamir.h
@@ -22,6 +22,7 @@
 #ifndef _SCL_SS_SHAMIR_H
 #define _SCL_SS_SHAMIR_H
 
+#include <algorithm>
 #include <array>
 #include <iostream>
 #include <stdexcept>
@@ -192,7 +193,8 @@ T ReconstructShamir(const Vec<T>& shares, const Vec<T>& alphas, const T& pos,
     throw std::invalid_argument(
         "not enough alphas to reconstruct with error detection");
 
-  for (std::size_t k = t + 1; k < 2 * t + 1; ++k) {
+  const auto n = std::min(shares.Size(), alphas.Size());
+  for (std::size_t k = t + 1; k < n; ++k) {
     auto s = InterpolateAt(shares, alphas, t + 1, alphas[k], 0);
     if (s != shares[k])
       throw std::logic_error("error detected during reconstruction");
-- 
2.43.0


From 0b499b36c191bd788c71c1a50990e9e65cf5be7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:02 +0000
Subject: [PATCH 09/32] fix: packed sharing of more secrets than degree + 1 is
 rejected

The number of random points wrapped around, so the call ran out of memory.
---
 secure-computation-library/include/scl/ss/packed.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/secure-computation-library/include/scl/ss/packed.h b/secure-computation-library/include/scl/ss/packed.h
index aca19bb..71899dc 100644
--- a/secure-computation-library/include/scl/ss/packed.h
+++ b/secure-computation-library/include/scl/ss/packed.h
@@ -71,6 +71,8 @@ namespace scl {
      */
     template <typename T>
     EvPolynomial<T> EvPolyFromSecretsAndDegree(const Vec<T>& secrets, std::size_t degree, PRG& prg) {
+      if (secrets.Size() > degree + 1)
+	throw std::invalid_argument("number of secrets is larger than degree + 1");
       Vec<T> x_points;
       x_points.Reserve(degree+1);
       for (std::size_t i = 0; i < secrets.Size(); i++) { x_points.Emplace(T(-i)); }
-- 
2.43.0


From c320280211fe4e6ee0db2dd02afa0dd053a891b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:13 +0000
Subject: [PATCH 10/32] fix: robust Shamir reconstruction returned a polynomial
 of too high degree instead of an error

---
 secure-computation-library/include/scl/ss/shamir.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/secure-computation-library/include/scl/ss/shamir.h b/secure-computation-library/include/scl/ss/shamir.h
index fef362b..274c4ba 100644
--- a/secure-computation-library/include/scl/ss/shamir.h
+++ b/secure-computation-library/include/scl/ss/shamir.h
@@ -255,7 +255,7 @@ std::array<details::Polynomial<T>, 2> ReconstructShamirRobust(
   auto E = details::Polynomial<T>::Create(cE);
   auto Q = details::Polynomial<T>::Create(Vec<T>{x.begin() + e, x.end()});
   auto qr = Q.Divide(E);
-  if (qr[1].IsZero()) return {qr[0], E};
+  if (qr[1].IsZero() && qr[0].Degree() <= t) return {qr[0], E};
 
   throw std::logic_error("could not correct shares");
 }
-- 
2.43.0


From f0e2148c8d1482a7e6e8f485437bebbc2a95cb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:52 +0000
Subject: [PATCH 11/32] fix: dummy preprocessing of multiplications evaluates
 at the party's own point

---
 src/tp/mult_gate.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tp/mult_gate.h b/src/tp/mult_gate.h
index 4aecdbf..a36dd22 100644
--- a/src/tp/mult_gate.h
+++ b/src/tp/mult_gate.h
@@ -127,13 +127,13 @@ namespace tp {
       
       // Using deg = BatchSize-1 ensures there's no randomness involved
       auto poly_A = scl::details::EvPolyFromSecretsAndDegree(lambda_A, mBatchSize-1, mPRG);
-      mPackedShrLambdaA = poly_A.Evaluate(FF(mID));
+      mPackedShrLambdaA = poly_A.Evaluate(FF(mID+1));
 	
       auto poly_B = scl::details::EvPolyFromSecretsAndDegree(lambda_B, mBatchSize-1, mPRG);
-      mPackedShrLambdaB = poly_B.Evaluate(FF(mID));
+      mPackedShrLambdaB = poly_B.Evaluate(FF(mID+1));
 
       auto poly_C = scl::details::EvPolyFromSecretsAndDegree(delta_C, mBatchSize-1, mPRG);
-      mPackedShrDeltaC = poly_C.Evaluate(FF(mID));
+      mPackedShrDeltaC = poly_C.Evaluate(FF(mID+1));
     }
 
     // For cleartext evaluation: calls GetClear on all its gates to
-- 
2.43.0


From a8b3d582758744c441742d6a002761e7d0238f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:47 +0000
Subject: [PATCH 12/32] fix: DN07 with more than 2t+1 parties

---
 src/tp/dn07.cc | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/tp/dn07.cc b/src/tp/dn07.cc
index a767271..2945513 100644
--- a/src/tp/dn07.cc
+++ b/src/tp/dn07.cc
@@ -142,7 +142,7 @@ namespace tp {
   }
 
   void DN07::FDMultPartiesSendP1() {
-    if (mCircuit.mID >= mThreshold+1) {
+    if (mCircuit.mID >= mParties-mThreshold) {
     // The last t parties set their shares of the input gates
       for (std::size_t owner_id = 0; owner_id < mCircuit.mClients; owner_id++) {
 	for (auto input_gate : mCircuit.mFlatInputGates[owner_id]) {
@@ -172,7 +172,7 @@ namespace tp {
 	if (mCircuit.mID == 0) {
 	  Vec shares_from_last;
 	  shares_from_last.Reserve(mThreshold);
-	  for (std::size_t i = mThreshold+1; i < mParties; ++i) {
+	  for (std::size_t i = mParties-mThreshold; i < mParties; ++i) {
 	    FF shr;
 	    mCircuit.mNetwork->Party(i)->Recv(shr);
 	    shares_from_last.Emplace(shr);
@@ -228,10 +228,10 @@ namespace tp {
 	for (std::size_t i = mParties-mThreshold; i < mParties; ++i) x_points.Emplace(FF(i+1));
 	// Interpolate polynomial
 	auto poly = scl::details::EvPolynomial<FF>(x_points, y_points);
-	// Compute remaining shares (only t+1 are needed)
-	auto shares_to_send = scl::details::SharesFromEvPoly(poly, mThreshold+1);
+	// Compute remaining shares (only the first n-t are needed)
+	auto shares_to_send = scl::details::SharesFromEvPoly(poly, mParties-mThreshold);
 	
-	for ( std::size_t i = 0; i < mThreshold+1; i++ ) {
+	for ( std::size_t i = 0; i < mParties-mThreshold; i++ ) {
 	  mCircuit.mNetwork->Party(i)->Send(shares_to_send[i]);
 	}
       }
@@ -239,8 +239,8 @@ namespace tp {
   }
 
   void DN07::InputPartiesReceive() {
-    // Only first t+1 need to receive and set this
-    if (mCircuit.mID < mThreshold+1) {
+    // Only first n-t need to receive and set this
+    if (mCircuit.mID < mParties-mThreshold) {
       for (std::size_t owner_id = 0; owner_id < mCircuit.mClients; owner_id++) {
 	for (auto input_gate : mCircuit.mFlatInputGates[owner_id]) {
 	  FF share_of_masked;
@@ -258,7 +258,7 @@ namespace tp {
   }
 
   void DN07::MultPartiesSendP1(std::size_t layer) {
-    if (mCircuit.mID < mThreshold+1) {
+    if (mCircuit.mID < mParties-mThreshold) {
       for (auto mult_gate : mCircuit.mFlatMultLayers[layer]) {
 	// Send masked shares to P1
 	FF shr = mult_gate->GetLeft()->GetDn07Share() * mult_gate->GetRight()->GetDn07Share() \
@@ -274,7 +274,7 @@ namespace tp {
       for (auto mult_gate : mCircuit.mFlatMultLayers[layer]) {
 	Vec shares;
 	shares.Reserve(mParties);
-	for (std::size_t i = 0; i < mThreshold+1; ++i) {
+	for (std::size_t i = 0; i < mParties-mThreshold; ++i) {
 	  FF shr;
 	  mCircuit.mNetwork->Party(i)->Recv(shr);
 	  shares.Emplace(shr);
@@ -284,8 +284,8 @@ namespace tp {
 	Vec shares_from_last = mMapP1SharesFromLast.front();
 	mMapP1SharesFromLast.pop();
 
-	for (std::size_t i = mThreshold+1; i < mParties; ++i) {
-	  shares.Emplace(shares_from_last[i-(mThreshold+1)]);
+	for (std::size_t i = mParties-mThreshold; i < mParties; ++i) {
+	  shares.Emplace(shares_from_last[i-(mParties-mThreshold)]);
 	}
 
 	FF secret = scl::details::SecretFromShares(shares);
@@ -306,8 +306,8 @@ namespace tp {
 	for (std::size_t i = mParties-mThreshold; i < mParties; ++i) x_points.Emplace(FF(i+1));
 	// Interpolate polynomial
 	auto poly = scl::details::EvPolynomial<FF>(x_points, y_points);
-	// Compute remaining shares (only t+1 are needed)
-	auto shares_to_send = scl::details::SharesFromEvPoly(poly, mThreshold+1);
+	// Compute remaining shares (only the first n-t are needed)
+	auto shares_to_send = scl::details::SharesFromEvPoly(poly, mParties-mThreshold);
 	mP1SharesToSend.push(shares_to_send);
       }
     }
@@ -315,7 +315,7 @@ namespace tp {
   void DN07::MultP1SendsParties(std::size_t layer) {
     if (mCircuit.mID == 0) {
       for (auto mult_gate : mCircuit.mFlatMultLayers[layer]) {
-	for ( std::size_t i = 0; i < mThreshold+1; i++ ) {
+	for ( std::size_t i = 0; i < mParties-mThreshold; i++ ) {
 	  mCircuit.mNetwork->Party(i)->Send(mP1SharesToSend.front()[i]);
 	}
 	mP1SharesToSend.pop();
@@ -324,7 +324,7 @@ namespace tp {
   }
 
   void DN07::MultPartiesReceive(std::size_t layer) {
-    if (mCircuit.mID < mThreshold+1) {
+    if (mCircuit.mID < mParties-mThreshold) {
       for (auto mult_gate : mCircuit.mFlatMultLayers[layer]) {
 
 	FF masked;
-- 
2.43.0


From db3360bb3286de61aaabaa09a1168a873fa0aea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:09 +0000
Subject: [PATCH 13/32] fix: preprocessing masks come from a freshly seeded
 generator

---
 src/tp.h            | 16 ++++++++++++++++
 src/tp/correlator.h |  2 +-
 src/tp/dn07.h       |  2 +-
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/tp.h b/src/tp.h
index 5f8983d..d9ea6d4 100644
--- a/src/tp.h
+++ b/src/tp.h
@@ -1,6 +1,9 @@
 #ifndef TP_H
 #define TP_H
 
+#include <array>
+#include <cstring>
+#include <random>
 #include <vector>
 
 #include "scl.h"
@@ -14,6 +17,19 @@ namespace tp {
   template<typename T>
   using vec = std::vector<T>;
 
+  // A PRG with a fresh seed. A default constructed scl::PRG has an
+  // all-zero seed, so that every party and every run would draw the
+  // same "random" masks.
+  inline scl::PRG FreshPRG() {
+    std::random_device device;
+    std::array<unsigned char, scl::PRG::SeedSize()> seed;
+    for (std::size_t i = 0; i < seed.size(); i += sizeof(unsigned int)) {
+      unsigned int word = device();
+      std::memcpy(seed.data() + i, &word, sizeof(word));
+    }
+    return scl::PRG(seed.data());
+  }
+
 }
 
 #endif  // TP_H
diff --git a/src/tp/correlator.h b/src/tp/correlator.h
index f96eff9..347c06d 100644
--- a/src/tp/correlator.h
+++ b/src/tp/correlator.h
@@ -244,7 +244,7 @@ namespace tp {
 
     std::size_t mThreshold;
 
-    scl::PRG mPRG;
+    scl::PRG mPRG = FreshPRG();
   };
 
 } // namespace tp
diff --git a/src/tp/dn07.h b/src/tp/dn07.h
index 1eca5aa..31aa43f 100644
--- a/src/tp/dn07.h
+++ b/src/tp/dn07.h
@@ -130,7 +130,7 @@ namespace tp {
     std::size_t mParties;
     std::size_t mThreshold;
 
-    scl::PRG mPRG;
+    scl::PRG mPRG = FreshPRG();
     std::vector<std::vector<FF>> mVandermonde; // mParties x (mThreshold + 1)
 
     std::queue<Vec> mP1SharesToSend; 
-- 
2.43.0


From 32c5d105b20991e70db963bf759425b3591a8685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:09 +0000
Subject: [PATCH 14/32] fix: zero sharings of input and output batches are not
 those of multiplications

---
 src/tp/fi_prep.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tp/fi_prep.cc b/src/tp/fi_prep.cc
index da5a30d..24720f3 100644
--- a/src/tp/fi_prep.cc
+++ b/src/tp/fi_prep.cc
@@ -157,7 +157,7 @@ namespace tp {
 	if (ctr < mNMultBatches) mMultBatchFIPrep[ctr].mShrO1 = shr; 
 	if ((mNMultBatches <= ctr) && (ctr < 2*mNMultBatches)) mMultBatchFIPrep[ctr - mNMultBatches].mShrO2 = shr;
 	if ((2*mNMultBatches <= ctr) && (ctr < 3*mNMultBatches)) mMultBatchFIPrep[ctr - 2*mNMultBatches].mShrO3 = shr;
-	else {
+	if (3*mNMultBatches <= ctr) {
 	  IOBatchFIPrep tmp;
 	  tmp.mShrO = shr;
 	  mIOBatchFIPrep.emplace_back(tmp);
-- 
2.43.0


From 7ed18425768739897a56805eeddeefe7825613f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:56 +0000
Subject: [PATCH 15/32] fix: share of an output gate's mask is that of its wire

---
 src/tp/output_gate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tp/output_gate.h b/src/tp/output_gate.h
index d8bfb48..b6be1a8 100644
--- a/src/tp/output_gate.h
+++ b/src/tp/output_gate.h
@@ -52,7 +52,7 @@ namespace tp {
 	mIndvShrLambdaC = mLeft->GetIndvShrLambda();
 	mIndvShrLambdaCSet = true;
       }
-      return mLambda;
+      return mIndvShrLambdaC;
     }    
 
     FF GetDn07Share() {
-- 
2.43.0


From 66c5671b7ecfdf632c89b0a1393e6490763d83ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:24 +0000
Subject: [PATCH 16/32] fix: synthetic circuits without inputs or
 multiplications are rejected

---
 src/tp/circuits/generic.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tp/circuits/generic.cc b/src/tp/circuits/generic.cc
index c688757..cff5cec 100644
--- a/src/tp/circuits/generic.cc
+++ b/src/tp/circuits/generic.cc
@@ -9,6 +9,8 @@ namespace tp {
       throw std::invalid_argument("The number of parties does not coincide with the length of the input vector");
     if ( config.n_parties != config.out_gates.size() )
       throw std::invalid_argument("The number of parties does not coincide with the length of the output vector");
+    if ( n_inputs == 0 || config.width == 0 || config.depth == 0 )
+      throw std::invalid_argument("The number of inputs, the width and the depth must be positive");
     if ( config.width % n_inputs != 0 )
       throw std::invalid_argument("Total number of inputs does not divide width");
     if ( n_inputs % 2 != 0 )
-- 
2.43.0


From ad037daec13bb95558999e71222fb32ee15b66ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:24 +0000
Subject: [PATCH 17/32] fix: rejected clear inputs leave the circuit as it was

---
 src/tp/circuits/cleartext.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tp/circuits/cleartext.cc b/src/tp/circuits/cleartext.cc
index e0b48a5..ab9720b 100644
--- a/src/tp/circuits/cleartext.cc
+++ b/src/tp/circuits/cleartext.cc
@@ -5,10 +5,13 @@ namespace tp {
     if ( inputs_per_client.size() != mClients )
       throw std::invalid_argument("Number of clients do not match");
 
+    // Check everything before the first input is set
     for (std::size_t i = 0; i < mClients; i++) {
       if ( inputs_per_client[i].size() != mFlatInputGates[i].size() )
 	throw std::invalid_argument("Number of inputs provided for a client does not match its number of input gates");
+    }
 
+    for (std::size_t i = 0; i < mClients; i++) {
       for (std::size_t j = 0; j < inputs_per_client[i].size(); j++) mFlatInputGates[i][j]->ClearInput(inputs_per_client[i][j]);
     }
   }
-- 
2.43.0


From 2694e945444745cfc5bee70e1401d77737a1c692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:34 +0000
Subject: [PATCH 18/32] fix: a receive from a closed connection fails instead
 of returning made-up data

---
 secure-computation-library/src/scl/net/tcp_channel.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/secure-computation-library/src/scl/net/tcp_channel.cc b/secure-computation-library/src/scl/net/tcp_channel.cc
index 47a32d9..a25401f 100644
--- a/secure-computation-library/src/scl/net/tcp_channel.cc
+++ b/secure-computation-library/src/scl/net/tcp_channel.cc
@@ -1,5 +1,7 @@
 #include "scl/net/tcp_channel.h"
 
+#include <stdexcept>
+
 #include "scl/net/tcp_utils.h"
 
 void scl::TcpChannel::Close() {
@@ -28,7 +30,7 @@ void scl::TcpChannel::Recv(unsigned char* dst, std::size_t n) {
 
   while (rem > 0) {
     auto recv = scl::details::ReadFromSocket(mSocket, dst + offset, rem);
-    if (!recv) break;
+    if (!recv) throw std::runtime_error("connection closed by remote");
     if (recv < 0) scl::details::ThrowError("read failed");
 
     rem -= recv;
-- 
2.43.0


From 08e6449d642ec3efa935595a6d52d3a94ae2f154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:14 +0000
Subject: [PATCH 19/32] fix: closing a threaded sender delivers what was
 queued, and destroying one does not hang

---
 .../include/scl/net/threaded_sender.h                | 10 +++++++++-
 .../src/scl/net/threaded_sender.cc                   | 12 ++++++++----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/secure-computation-library/include/scl/net/threaded_sender.h b/secure-computation-library/include/scl/net/threaded_sender.h
index 49b0437..8b37073 100644
--- a/secure-computation-library/include/scl/net/threaded_sender.h
+++ b/secure-computation-library/include/scl/net/threaded_sender.h
@@ -47,10 +47,18 @@ class ThreadedSenderChannel final : public Channel {
    */
   ThreadedSenderChannel(int socket);
 
+  /**
+   * @brief Destroying a threaded sender channel closes the connection.
+   */
+  ~ThreadedSenderChannel() { Close(); };
+
+  /**
+   * @brief Send all data queued so far and close the connection.
+   */
   void Close() override;
 
   void Send(const unsigned char* src, std::size_t n) override {
-    mSendBuffer.PushBack({src, src + n});
+    if (n) mSendBuffer.PushBack({src, src + n});
   };
 
   void Recv(unsigned char* dst, std::size_t n) override {
diff --git a/secure-computation-library/src/scl/net/threaded_sender.cc b/secure-computation-library/src/scl/net/threaded_sender.cc
index 4945fe4..d263900 100644
--- a/secure-computation-library/src/scl/net/threaded_sender.cc
+++ b/secure-computation-library/src/scl/net/threaded_sender.cc
@@ -7,7 +7,8 @@ scl::ThreadedSenderChannel::ThreadedSenderChannel(int socket)
   mSender = std::async(std::launch::async, [&]() {
     while (true) {
       auto data = mSendBuffer.Peek();
-      if (!mChannel.Alive()) {
+      // Send never queues an empty message; Close does so to stop this thread.
+      if (data.empty()) {
         break;
       }
       mChannel.Send(data.data(), data.size());
@@ -17,8 +18,11 @@ scl::ThreadedSenderChannel::ThreadedSenderChannel(int socket)
 }
 
 void scl::ThreadedSenderChannel::Close() {
-  mChannel.Close();
-  unsigned char stop_signal = 1;
-  Send(&stop_signal, 1);
+  if (!mSender.valid()) return;
+
+  // let the sender finish what has been queued before closing the socket.
+  mSendBuffer.PushBack(std::vector<unsigned char>());
   mSender.wait();
+  mSender = std::future<void>();
+  mChannel.Close();
 }
-- 
2.43.0


From 8f171486440439345dee8cd655ac535f08c7d4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:53 +0000
Subject: [PATCH 20/32] fix: the size limit on received matrices holds when
 rows times columns overflows 32 bits

---
 secure-computation-library/include/scl/net/channel.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/secure-computation-library/include/scl/net/channel.h b/secure-computation-library/include/scl/net/channel.h
index c454fae..d3b4285 100644
--- a/secure-computation-library/include/scl/net/channel.h
+++ b/secure-computation-library/include/scl/net/channel.h
@@ -208,8 +208,9 @@ class Channel {
    */
   template <typename T>
   void Recv(Mat<T>& mat) {
-    auto rows = RecvSize();
-    auto cols = RecvSize();
+    // std::size_t, since the product of two 32-bit sizes may not fit in 32 bits
+    const std::size_t rows = RecvSize();
+    const std::size_t cols = RecvSize();
     if (rows * cols > MAX_MAT_READ_SIZE)
       throw std::logic_error("received matrix exceeds size limit");
     auto n = rows * cols * T::ByteSize();
-- 
2.43.0


From 39563e547c6601d87eb00d5ede444681b124c5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:40 +0000
Subject: [PATCH 21/32] fix: a party is looked up by its id, not by its
 position in the configuration

---
 secure-computation-library/include/scl/net/config.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/secure-computation-library/include/scl/net/config.h b/secure-computation-library/include/scl/net/config.h
index 5c588b1..e1b716e 100644
--- a/secure-computation-library/include/scl/net/config.h
+++ b/secure-computation-library/include/scl/net/config.h
@@ -24,6 +24,7 @@
 
 #include <memory>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -127,8 +128,15 @@ class NetworkConfig {
 
   /**
    * @brief Get information about a party.
+   * @param id the identity of the party
+   * @throws std::invalid_argument if there is no such party
    */
-  Party GetParty(unsigned id) const { return mParties[id]; };
+  Party GetParty(unsigned id) const {
+    for (const auto& party : mParties) {
+      if (party.id == id) return party;
+    }
+    throw std::invalid_argument("no party with that id in config");
+  };
 
   /**
    * @brief Return a string representation of this network config.
-- 
2.43.0


From 8a4bb7afbe3353703461661ad240707a1fc002bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:01 +0000
Subject: [PATCH 22/32] fix: ids in a config file that wrap around to a valid
 id are rejected

---
 secure-computation-library/src/scl/net/config.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/secure-computation-library/src/scl/net/config.cc b/secure-computation-library/src/scl/net/config.cc
index f795ceb..01a8da9 100644
--- a/secure-computation-library/src/scl/net/config.cc
+++ b/secure-computation-library/src/scl/net/config.cc
@@ -2,6 +2,7 @@
 
 #include <fstream>
 #include <iostream>
+#include <limits>
 #include <sstream>
 #include <stdexcept>
 #include <string>
@@ -10,6 +11,15 @@ static inline void ValidateIdAndSize(unsigned id, std::size_t n) {
   if (n <= id) throw std::invalid_argument("invalid id");
 }
 
+// stoul accepts negative numbers and returns values that do not fit in an id.
+static inline unsigned ParseId(const std::string& str) {
+  const auto id = std::stoul(str);
+  if (str.find('-') != std::string::npos ||
+      id > std::numeric_limits<unsigned>::max())
+    throw std::invalid_argument("invalid id");
+  return (unsigned)id;
+}
+
 scl::NetworkConfig scl::NetworkConfig::Load(unsigned id, std::string filename) {
   std::ifstream file(filename);
 
@@ -25,7 +35,7 @@ scl::NetworkConfig scl::NetworkConfig::Load(unsigned id, std::string filename) {
     if (a == std::string::npos || b == std::string::npos)
       throw std::invalid_argument("invalid entry in config file");
 
-    auto id = (unsigned)std::stoul(std::string(line.begin(), line.begin() + a));
+    auto id = ParseId(std::string(line.begin(), line.begin() + a));
     auto hostname = std::string(line.begin() + a + 1, line.begin() + b);
     auto port = std::stoi(std::string(line.begin() + b + 1, line.end()));
     info.emplace_back(Party{id, hostname, port});
-- 
2.43.0


From aa7bd66b6ccdb22dbc9b2d439f497bd2d2e06825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:37 +0000
Subject: [PATCH 23/32] fix: accepted connections of a network with threaded
 senders have sending threads too

---
 secure-computation-library/src/scl/net/network.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/secure-computation-library/src/scl/net/network.cc b/secure-computation-library/src/scl/net/network.cc
index b6f2fb3..bb8c52d 100644
--- a/secure-computation-library/src/scl/net/network.cc
+++ b/secure-computation-library/src/scl/net/network.cc
@@ -9,6 +9,7 @@ static inline std::shared_ptr<scl::Channel> Self() {
   return scl::InMemoryChannel::CreateSelfConnecting();
 }
 
+template <typename ChannelT>
 static inline void AcceptConnections(
     std::vector<std::shared_ptr<scl::Channel>>& channels,
     const scl::NetworkConfig config) {
@@ -21,7 +22,7 @@ static inline void AcceptConnections(
     for (std::size_t i = config.Id() + 1; i < config.NetworkSize(); ++i) {
       auto ac = scl::details::AcceptConnection(ssock);
       std::shared_ptr<scl::Channel> channel =
-          std::make_shared<scl::TcpChannel>(ac.socket);
+          std::make_shared<ChannelT>(ac.socket);
       unsigned id;
       channel->Recv(id);
       channels[id] = channel;
@@ -35,7 +36,8 @@ scl::Network scl::Network::Create(const scl::NetworkConfig& config) {
 
   channels[config.Id()] = Self();
 
-  std::thread server(AcceptConnections, std::ref(channels), config);
+  std::thread server(AcceptConnections<scl::TcpChannel>, std::ref(channels),
+                     config);
 
   for (std::size_t i = 0; i < config.Id(); ++i) {
     const auto party = config.GetParty(i);
@@ -59,7 +61,8 @@ scl::Network scl::Network::CreateThreadedSenders(const NetworkConfig& config) {
 
   channels[config.Id()] = Self();
 
-  std::thread server(AcceptConnections, std::ref(channels), config);
+  std::thread server(AcceptConnections<scl::ThreadedSenderChannel>,
+                     std::ref(channels), config);
 
   for (std::size_t i = 0; i < config.Id(); ++i) {
     const auto party = config.GetParty(i);
-- 
2.43.0


From 46c49ab4fc472a9d7f591f13120eeeb822180730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:05 +0000
Subject: [PATCH 24/32] fix: discovery server rejects an id announced twice,
 its own included

---
 secure-computation-library/src/scl/net/discovery/server.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/secure-computation-library/src/scl/net/discovery/server.cc b/secure-computation-library/src/scl/net/discovery/server.cc
index 0f8ff65..937c59c 100644
--- a/secure-computation-library/src/scl/net/discovery/server.cc
+++ b/secure-computation-library/src/scl/net/discovery/server.cc
@@ -34,7 +34,9 @@ scl::NetworkConfig Server::Run(const scl::Party& me) {
 Server::SendNetworkConfig Server::CollectIdsAndPorts::Run(Server::Ctx& ctx) {
   auto my_id = ctx.me.id;
   std::vector<scl::Party> parties(mHostnames.size());
+  std::vector<bool> seen(parties.size(), false);
   parties[my_id] = ctx.me;
+  seen[my_id] = true;
 
   for (std::size_t i = 0; i < mHostnames.size(); ++i) {
     if (my_id != i) {
@@ -43,6 +45,10 @@ Server::SendNetworkConfig Server::CollectIdsAndPorts::Run(Server::Ctx& ctx) {
       if (id >= parties.size()) {
         throw std::logic_error("received invalid party ID");
       }
+      if (seen[id]) {
+        throw std::logic_error("received duplicate party ID");
+      }
+      seen[id] = true;
       int port;
       ctx.network.Party(i)->Recv(port);
       parties[id] = scl::Party{id, mHostnames[id], port};
-- 
2.43.0


From 9d0004bbcbf498fef607455386f07a9c92a473bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:05 +0000
Subject: [PATCH 25/32] fix: discovery server rejects an id of its own outside
 the network

---
 .../src/scl/net/discovery/server.cc                       | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/secure-computation-library/src/scl/net/discovery/server.cc b/secure-computation-library/src/scl/net/discovery/server.cc
index 937c59c..69c440e 100644
--- a/secure-computation-library/src/scl/net/discovery/server.cc
+++ b/secure-computation-library/src/scl/net/discovery/server.cc
@@ -1,6 +1,7 @@
 #include "scl/net/discovery/server.h"
 
 #include <memory>
+#include <stdexcept>
 #include <vector>
 
 #include "scl/net/tcp_utils.h"
@@ -8,6 +9,10 @@
 using Server = scl::DiscoveryServer;
 
 scl::NetworkConfig Server::Run(const scl::Party& me) {
+  if (me.id >= mNumberOfParties) {
+    throw std::invalid_argument("invalid server party ID");
+  }
+
   // one of the parties is us, which we do not connect to.
   auto ssock = scl::details::CreateServerSocket(mPort, mNumberOfParties - 1);
   std::vector<std::shared_ptr<scl::Channel>> channels;
@@ -33,6 +38,9 @@ scl::NetworkConfig Server::Run(const scl::Party& me) {
 
 Server::SendNetworkConfig Server::CollectIdsAndPorts::Run(Server::Ctx& ctx) {
   auto my_id = ctx.me.id;
+  if (my_id >= mHostnames.size()) {
+    throw std::invalid_argument("invalid server party ID");
+  }
   std::vector<scl::Party> parties(mHostnames.size());
   std::vector<bool> seen(parties.size(), false);
   parties[my_id] = ctx.me;
-- 
2.43.0


From 3df199400434af9be2b215069d91764ce6f0fa79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:05 +0000
Subject: [PATCH 26/32] fix: discovery server stops listening once all parties
 are connected

---
 secure-computation-library/src/scl/net/discovery/server.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/secure-computation-library/src/scl/net/discovery/server.cc b/secure-computation-library/src/scl/net/discovery/server.cc
index 69c440e..5c9129f 100644
--- a/secure-computation-library/src/scl/net/discovery/server.cc
+++ b/secure-computation-library/src/scl/net/discovery/server.cc
@@ -30,6 +30,7 @@ scl::NetworkConfig Server::Run(const scl::Party& me) {
       hostnames.emplace_back(hostname);
     }
   }
+  scl::details::CloseSocket(ssock);
 
   Server::CollectIdsAndPorts discovery(hostnames);
   Server::Ctx ctx{me, scl::Network{channels}};
-- 
2.43.0


From 4e46e6a331ee4783b9f38a78df019e74c9cab2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:05 +0000
Subject: [PATCH 27/32] fix: discovery client checks ids and sizes it receives

---
 .../include/scl/net/discovery/client.h             |  7 +++++++
 .../src/scl/net/discovery/client.cc                | 14 ++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/secure-computation-library/include/scl/net/discovery/client.h b/secure-computation-library/include/scl/net/discovery/client.h
index 7d4416f..c7e99b0 100644
--- a/secure-computation-library/include/scl/net/discovery/client.h
+++ b/secure-computation-library/include/scl/net/discovery/client.h
@@ -30,6 +30,13 @@
 #include "scl/net/network.h"
 #include "scl/p/simple.h"
 
+/**
+ * @brief The maximum length of a hostname we accept from a discovery server.
+ */
+#ifndef MAX_HOSTNAME_LENGTH
+#define MAX_HOSTNAME_LENGTH 255
+#endif
+
 namespace scl {
 
 /**
diff --git a/secure-computation-library/src/scl/net/discovery/client.cc b/secure-computation-library/src/scl/net/discovery/client.cc
index d33f039..8e4cdcc 100644
--- a/secure-computation-library/src/scl/net/discovery/client.cc
+++ b/secure-computation-library/src/scl/net/discovery/client.cc
@@ -1,6 +1,8 @@
 #include "scl/net/discovery/client.h"
 
 #include <memory>
+#include <stdexcept>
+#include <vector>
 
 #include "scl/net/tcp_utils.h"
 
@@ -25,6 +27,9 @@ Client::ReceiveNetworkConfig Client::SendIdAndPort::Run(
 static inline std::string ReceiveHostname(std::shared_ptr<scl::Channel> ctx) {
   std::size_t len;
   ctx->Recv(len);
+  if (len > MAX_HOSTNAME_LENGTH) {
+    throw std::logic_error("received invalid hostname length");
+  }
   auto buf = std::make_unique<char[]>(len);
   ctx->Recv(reinterpret_cast<unsigned char*>(buf.get()), len);
   return std::string(buf.get(), buf.get() + len);
@@ -35,10 +40,19 @@ scl::NetworkConfig Client::ReceiveNetworkConfig::Finalize(
   std::size_t number_of_parties;
   ctx->Recv(number_of_parties);
 
+  if (number_of_parties > MAX_DISCOVER_PARTIES) {
+    throw std::logic_error("received invalid number of parties");
+  }
+
   std::vector<scl::Party> parties(number_of_parties);
+  std::vector<bool> seen(number_of_parties, false);
   for (std::size_t i = 0; i < number_of_parties; ++i) {
     scl::Party party;
     ctx->Recv(party.id);
+    if (party.id >= number_of_parties || seen[party.id]) {
+      throw std::logic_error("received invalid party ID");
+    }
+    seen[party.id] = true;
     ctx->Recv(party.port);
     auto hostname = ReceiveHostname(ctx);
     party.hostname = hostname;
-- 
2.43.0


From 96be5e68b5b637984242f87914d0b7d01b993526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:41 +0000
Subject: [PATCH 28/32] fix: new clear inputs start a new evaluation in the
 clear

---
 src/tp/circuits.h            |  3 +++
 src/tp/circuits/cleartext.cc | 10 ++++++++++
 src/tp/gate.h                |  3 +++
 3 files changed, 16 insertions(+)

diff --git a/src/tp/circuits.h b/src/tp/circuits.h
index c7cdc35..a38207c 100644
--- a/src/tp/circuits.h
+++ b/src/tp/circuits.h
@@ -285,6 +285,9 @@ namespace tp {
 
 
   private:
+    // Makes the next cleartext evaluation start from the inputs again
+    void ForgetClear();
+
     std::size_t mBatchSize;
 
     // List of layers. Each layer is itself a list of batches, which
diff --git a/src/tp/circuits/cleartext.cc b/src/tp/circuits/cleartext.cc
index ab9720b..bc8ece2 100644
--- a/src/tp/circuits/cleartext.cc
+++ b/src/tp/circuits/cleartext.cc
@@ -11,12 +11,14 @@ namespace tp {
 	throw std::invalid_argument("Number of inputs provided for a client does not match its number of input gates");
     }
 
+    ForgetClear();
     for (std::size_t i = 0; i < mClients; i++) {
       for (std::size_t j = 0; j < inputs_per_client[i].size(); j++) mFlatInputGates[i][j]->ClearInput(inputs_per_client[i][j]);
     }
   }
   
   void Circuit::SetClearInputsFlat(std::vector<FF> inputs) {
+    ForgetClear();
     std::size_t idx(0);
     for (std::size_t i = 0; i < mClients; i++) {
       for (auto input_gate : mFlatInputGates[i]) {
@@ -26,6 +28,14 @@ namespace tp {
     }
   }
   
+  void Circuit::ForgetClear() {
+    for (auto add_gate : mAddGates) add_gate->ForgetClear();
+    for (auto mult_layer : mFlatMultLayers) {
+      for (auto mult_gate : mult_layer) mult_gate->ForgetClear();
+    }
+    for (auto output_gate : mOutputGates) output_gate->ForgetClear();
+  }
+
   std::vector<std::vector<FF>> Circuit::GetClearOutputs() {
     std::vector<std::vector<FF>> output;
     output.reserve(mClients);
diff --git a/src/tp/gate.h b/src/tp/gate.h
index 7dc3d41..ebab791 100644
--- a/src/tp/gate.h
+++ b/src/tp/gate.h
@@ -24,6 +24,9 @@ namespace tp {
     // For cleartext evaluation
     bool IsEvaluated() { return mEvaluated; }
 
+    // Forgets the cleartext evaluation, which belonged to other inputs
+    void ForgetClear() { mEvaluated = false; }
+
     // For testing purposes. Sets mu to the given value
     void _SetDummyMu(FF mu) {
       mMu = mu;
-- 
2.43.0


From 1409c69bccf50cae5ae357350f6bf2a0d3a7d529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:53 +0000
Subject: [PATCH 29/32] fix: sending to a peer that is gone fails instead of
 killing the process with SIGPIPE

---
 secure-computation-library/src/scl/net/tcp_utils.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/secure-computation-library/src/scl/net/tcp_utils.cc b/secure-computation-library/src/scl/net/tcp_utils.cc
index e138fa2..6d556a4 100644
--- a/secure-computation-library/src/scl/net/tcp_utils.cc
+++ b/secure-computation-library/src/scl/net/tcp_utils.cc
@@ -86,5 +86,6 @@ int scl::details::ReadFromSocket(int socket, unsigned char* dst,
 
 int scl::details::WriteToSocket(int socket, const unsigned char* src,
                                 std::size_t n) {
-  return ::write(socket, src, n);
+  // a peer that is gone is an error, not a signal that ends the process.
+  return ::send(socket, src, n, MSG_NOSIGNAL);
 }
-- 
2.43.0


From e2a0ed1bac500f0b27c591e0a1cfaf4e2053009d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:05 +0000
Subject: [PATCH 30/32] fix: ports out of range and text after a number in a
 config file are rejected

---
 .../src/scl/net/config.cc                     | 22 +++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/secure-computation-library/src/scl/net/config.cc b/secure-computation-library/src/scl/net/config.cc
index 01a8da9..f52f6b7 100644
--- a/secure-computation-library/src/scl/net/config.cc
+++ b/secure-computation-library/src/scl/net/config.cc
@@ -1,5 +1,6 @@
 #include "scl/net/config.h"
 
+#include <cstdint>
 #include <fstream>
 #include <iostream>
 #include <limits>
@@ -11,9 +12,26 @@ static inline void ValidateIdAndSize(unsigned id, std::size_t n) {
   if (n <= id) throw std::invalid_argument("invalid id");
 }
 
+// stoul and stoi ignore everything after the number.
+static inline void ValidateRest(const std::string& str, std::size_t pos) {
+  if (str.find_first_not_of(" \t\r", pos) != std::string::npos)
+    throw std::invalid_argument("invalid number in config file");
+}
+
+static inline int ParsePort(const std::string& str) {
+  std::size_t pos;
+  const auto port = std::stoi(str, &pos);
+  ValidateRest(str, pos);
+  if (port < 0 || port > std::numeric_limits<std::uint16_t>::max())
+    throw std::invalid_argument("invalid port");
+  return port;
+}
+
 // stoul accepts negative numbers and returns values that do not fit in an id.
 static inline unsigned ParseId(const std::string& str) {
-  const auto id = std::stoul(str);
+  std::size_t pos;
+  const auto id = std::stoul(str, &pos);
+  ValidateRest(str, pos);
   if (str.find('-') != std::string::npos ||
       id > std::numeric_limits<unsigned>::max())
     throw std::invalid_argument("invalid id");
@@ -37,7 +55,7 @@ scl::NetworkConfig scl::NetworkConfig::Load(unsigned id, std::string filename) {
 
     auto id = ParseId(std::string(line.begin(), line.begin() + a));
     auto hostname = std::string(line.begin() + a + 1, line.begin() + b);
-    auto port = std::stoi(std::string(line.begin() + b + 1, line.end()));
+    auto port = ParsePort(std::string(line.begin() + b + 1, line.end()));
     info.emplace_back(Party{id, hostname, port});
   }
 
-- 
2.43.0


From bd78dea145180d84a8f6a288e19a08efaa73157d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:35 +0000
Subject: [PATCH 31/32] fix: wires of a client the circuit does not have are
 rejected

---
 src/tp/circuits/building.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tp/circuits/building.cc b/src/tp/circuits/building.cc
index c6fc2de..b5c1c45 100644
--- a/src/tp/circuits/building.cc
+++ b/src/tp/circuits/building.cc
@@ -28,6 +28,8 @@ namespace tp {
   }
 
   std::shared_ptr<InputGate> Circuit::Input(std::size_t owner_id) {
+    if ( owner_id >= mClients )
+      throw std::invalid_argument("The owner is not one of the clients");
     auto input_gate = std::make_shared<tp::InputGate>(owner_id);
     mInputLayers[owner_id].Append(input_gate);
     mFlatInputGates[owner_id].emplace_back(input_gate);
@@ -36,6 +38,8 @@ namespace tp {
   }
 
   std::shared_ptr<OutputGate> Circuit::Output(std::size_t owner_id, std::shared_ptr<Gate> output) {
+    if ( owner_id >= mClients )
+      throw std::invalid_argument("The owner is not one of the clients");
     auto output_gate = std::make_shared<tp::OutputGate>(owner_id, output);
     mOutputLayers[owner_id].Append(output_gate);
     mFlatOutputGates[owner_id].emplace_back(output_gate);
-- 
2.43.0


From 9306b093675b85b61b93d48af797300885f0cb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:03 +0000
Subject: [PATCH 32/32] fix: a network that cannot be set up throws instead of
 writing out of bounds or ending the process

---
 .../src/scl/net/network.cc                     | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/secure-computation-library/src/scl/net/network.cc b/secure-computation-library/src/scl/net/network.cc
index bb8c52d..0cf8244 100644
--- a/secure-computation-library/src/scl/net/network.cc
+++ b/secure-computation-library/src/scl/net/network.cc
@@ -1,6 +1,6 @@
 #include "scl/net/network.h"
 
-#include <thread>
+#include <stdexcept>
 
 #include "scl/net/tcp_utils.h"
 #include "scl/net/threaded_sender.h"
@@ -12,7 +12,7 @@ static inline std::shared_ptr<scl::Channel> Self() {
 template <typename ChannelT>
 static inline void AcceptConnections(
     std::vector<std::shared_ptr<scl::Channel>>& channels,
-    const scl::NetworkConfig config) {
+    const scl::NetworkConfig& config) {
   // Act as server for all clients with an ID strictly greater than ours.
   auto my_id = config.Id();
   auto n = config.NetworkSize() - my_id - 1;
@@ -25,6 +25,10 @@ static inline void AcceptConnections(
           std::make_shared<ChannelT>(ac.socket);
       unsigned id;
       channel->Recv(id);
+      if (id <= my_id || id >= channels.size() || channels[id]) {
+        scl::details::CloseSocket(ssock);
+        throw std::runtime_error("received unexpected party ID");
+      }
       channels[id] = channel;
     }
     scl::details::CloseSocket(ssock);
@@ -36,9 +40,6 @@ scl::Network scl::Network::Create(const scl::NetworkConfig& config) {
 
   channels[config.Id()] = Self();
 
-  std::thread server(AcceptConnections<scl::TcpChannel>, std::ref(channels),
-                     config);
-
   for (std::size_t i = 0; i < config.Id(); ++i) {
     const auto party = config.GetParty(i);
     auto socket = scl::details::ConnectAsClient(party.hostname, party.port);
@@ -48,7 +49,7 @@ scl::Network scl::Network::Create(const scl::NetworkConfig& config) {
     channels[i] = channel;
   }
 
-  server.join();
+  AcceptConnections<scl::TcpChannel>(channels, config);
 
   return Network{channels};
 }
@@ -61,9 +62,6 @@ scl::Network scl::Network::CreateThreadedSenders(const NetworkConfig& config) {
 
   channels[config.Id()] = Self();
 
-  std::thread server(AcceptConnections<scl::ThreadedSenderChannel>,
-                     std::ref(channels), config);
-
   for (std::size_t i = 0; i < config.Id(); ++i) {
     const auto party = config.GetParty(i);
     auto socket = scl::details::ConnectAsClient(party.hostname, party.port);
@@ -73,7 +71,7 @@ scl::Network scl::Network::CreateThreadedSenders(const NetworkConfig& config) {
     channels[i] = channel;
   }
 
-  server.join();
+  AcceptConnections<scl::ThreadedSenderChannel>(channels, config);
 
   return Network{channels};
 }
-- 
2.43.0

