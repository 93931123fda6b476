From 6c2f6a7413720810f58456bbbf0b9e0b345ca3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:49 +0000
Subject: [PATCH 01/38] fix: 256-bit division is wrong when the leading limbs
 of the remainder equal those of the divisor

The quotient digit estimate assumed that the two leading limbs of the running
remainder are strictly less than those of the divisor. They can be equal when
the divisor has three or more limbs, and the estimate then underflowed. Division,
remainder, mulmod, gcd and inv_mod returned wrong values for such operands.
---
 algebra/u256/src/arch/generic/knuth_division.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/algebra/u256/src/arch/generic/knuth_division.rs b/algebra/u256/src/arch/generic/knuth_division.rs
index 00fbee2..e2ca9b7 100644
--- a/algebra/u256/src/arch/generic/knuth_division.rs
+++ b/algebra/u256/src/arch/generic/knuth_division.rs
@@ -52,10 +52,14 @@ fn div_3by2(n: &[u64; 3], d: &[u64; 2]) -> u64 {
     // The highest bit of d needs to be set
     debug_assert!(d[1] >> 63 == 1);
 
-    // The quotient needs to fit u64. For this we need [n2 n1] < [d1 d0]
-    debug_assert!(val_2(n[1], n[2]) < val_2(d[0], d[1]));
+    // The quotient of the full numerator and divisor fits u64, for this we need
+    // [n2 n1] <= [d1 d0]. (They can be equal when there are further limbs.)
+    debug_assert!(val_2(n[1], n[2]) <= val_2(d[0], d[1]));
 
-    if n[2] == d[1] {
+    if n[2] == d[1] && n[1] == d[0] {
+        // The quotient is 2^64 or larger, saturate.
+        0xffff_ffff_ffff_ffff_u64
+    } else if n[2] == d[1] {
         // From [n2 n1] < [d1 d0] and n2 = d1 it follows that n[1] < d[0].
         debug_assert!(n[1] < d[0]);
         // We start by subtracting 2^64 times the divisor, resulting in a
-- 
2.43.0


From d4acd10d1ecfb5422e1ae7aea143de1e65acd7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:49 +0000
Subject: [PATCH 02/38] fix: the sum of 256-bit integers starts from zero, not
 one

---
 algebra/u256/src/additive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebra/u256/src/additive.rs b/algebra/u256/src/additive.rs
index 822111f..ad9a87d 100644
--- a/algebra/u256/src/additive.rs
+++ b/algebra/u256/src/additive.rs
@@ -104,7 +104,7 @@ impl Neg for &U256 {
 
 impl core::iter::Sum for U256 {
     fn sum<I: Iterator<Item = U256>>(iter: I) -> Self {
-        iter.fold(Self::ONE, Add::add)
+        iter.fold(Self::ZERO, Add::add)
     }
 }
 
-- 
2.43.0


From fb68fca8fa51813f992f30c59c9ab28a04ced701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:03 +0000
Subject: [PATCH 03/38] fix: decimal parsing of 256-bit integers overflowed
 silently and panicked on multi-byte characters

---
 algebra/u256/src/encoding.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/algebra/u256/src/encoding.rs b/algebra/u256/src/encoding.rs
index b810af5..3f44043 100644
--- a/algebra/u256/src/encoding.rs
+++ b/algebra/u256/src/encoding.rs
@@ -11,9 +11,9 @@ use std::format;
 
 impl U256 {
     pub fn from_decimal_str(s: &str) -> Result<Self, ParseError> {
-        // ceil(2^256 / 10)
+        // floor(2^256 / 10)
         let max10: Self = Self::from_limbs([
-            0x9999_9999_9999_999a_u64,
+            0x9999_9999_9999_9999_u64,
             0x9999_9999_9999_9999_u64,
             0x9999_9999_9999_9999_u64,
             0x1999_9999_9999_9999_u64,
@@ -25,12 +25,12 @@ impl U256 {
         // TODO: Implement as trait
         // OPT: Convert 19 digits at a time using u64.
         let mut result = Self::ZERO;
-        for (i, _c) in s.chars().enumerate() {
+        for c in s.chars() {
             if result > max10 {
                 return Err(ParseError::Overflow);
             }
             result *= Self::from(10_u64);
-            let digit = Self::from(u64::from_str_radix(&s[i..=i], 10)?);
+            let digit = Self::from(u64::from_str_radix(c.encode_utf8(&mut [0; 4]), 10)?);
             if &result + &digit < result {
                 return Err(ParseError::Overflow);
             }
-- 
2.43.0


From 45236a3f0ad95eab548eeddd1744cbb24d2e56cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:03 +0000
Subject: [PATCH 04/38] fix: over-long hexadecimal is refused, not truncated,
 and malformed serde text is an error, not a panic

---
 algebra/u256/src/conversion.rs |  2 +-
 algebra/u256/src/encoding.rs   | 12 ++++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/algebra/u256/src/conversion.rs b/algebra/u256/src/conversion.rs
index 8d04857..49756fe 100644
--- a/algebra/u256/src/conversion.rs
+++ b/algebra/u256/src/conversion.rs
@@ -48,7 +48,7 @@ impl<'a> Deserialize<'a> for U256 {
     fn deserialize<D: Deserializer<'a>>(deserializer: D) -> Result<Self, D::Error> {
         if deserializer.is_human_readable() {
             let string = String::deserialize(deserializer)?;
-            Ok(U256::from_hex_str(&string))
+            U256::try_from_hex_str(&string).map_err(serde::de::Error::custom)
         } else {
             <[u8; 32]>::deserialize(deserializer).map(|b| U256::from_bytes_be(&b))
         }
diff --git a/algebra/u256/src/encoding.rs b/algebra/u256/src/encoding.rs
index 3f44043..9579dc9 100644
--- a/algebra/u256/src/encoding.rs
+++ b/algebra/u256/src/encoding.rs
@@ -62,12 +62,16 @@ impl U256 {
     }
 
     pub fn from_hex_str(s: &str) -> Self {
-        let byte_string = format!("{:0>64}", s.trim_start_matches("0x"));
         // TODO: error
-        let bytes = hex::decode(byte_string).unwrap();
+        Self::try_from_hex_str(s).unwrap()
+    }
+
+    // Refuses text that is not hexadecimal or has more than 64 digits.
+    pub(crate) fn try_from_hex_str(s: &str) -> Result<Self, hex::FromHexError> {
+        let byte_string = format!("{:0>64}", s.trim_start_matches("0x"));
         let mut array = [0_u8; 32];
-        array.copy_from_slice(&bytes[..32]);
-        Self::from_bytes_be(&array)
+        hex::decode_to_slice(byte_string, &mut array)?;
+        Ok(Self::from_bytes_be(&array))
     }
 }
 
-- 
2.43.0


From 128b93fb7d9ccb3b1ee54f2fc55c0a45103b1c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:46 +0000
Subject: [PATCH 05/38] fix: the smallest number of a signed type converts to
 the wrong field element

---
 algebra/primefield/src/convert.rs | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/algebra/primefield/src/convert.rs b/algebra/primefield/src/convert.rs
index 2d21ae7..1558815 100644
--- a/algebra/primefield/src/convert.rs
+++ b/algebra/primefield/src/convert.rs
@@ -6,15 +6,15 @@ use zkp_u256::U256;
 // TODO: Move upstream to `num_traits`
 pub trait MaybeSigned {
     /// True if negative
-    fn as_sign_abs(self) -> (bool, Self);
+    fn is_negative(&self) -> bool;
 }
 
 macro_rules! maybe_unsigned {
     ($type:ident) => {
         impl MaybeSigned for $type {
             #[inline(always)]
-            fn as_sign_abs(self) -> (bool, Self) {
-                (false, self)
+            fn is_negative(&self) -> bool {
+                false
             }
         }
     };
@@ -24,12 +24,8 @@ macro_rules! maybe_signed {
     ($type:ident) => {
         impl MaybeSigned for $type {
             #[cfg_attr(feature = "inline", inline(always))]
-            fn as_sign_abs(self) -> (bool, Self) {
-                if self >= 0 {
-                    (false, self)
-                } else {
-                    (true, -self)
-                }
+            fn is_negative(&self) -> bool {
+                *self < 0
             }
         }
     };
@@ -62,11 +58,14 @@ where
 {
     #[cfg_attr(feature = "inline", inline(always))]
     fn from(other: Other) -> Self {
-        let (sign, abs) = other.as_sign_abs();
-        if sign {
-            -Self::from_uint_reduce(&abs.into())
+        let negative = other.is_negative();
+        // Negative numbers convert to their two's complement. Negate it here and not
+        // in `Other`, where the smallest number has no absolute value.
+        let uint = U::from(other);
+        if negative {
+            -Self::from_uint_reduce(&U::zero().sub(&uint))
         } else {
-            Self::from_uint_reduce(&abs.into())
+            Self::from_uint_reduce(&uint)
         }
     }
 }
-- 
2.43.0


From 99eef625f45303e565041be2e890c7ac255ff895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:46 +0000
Subject: [PATCH 06/38] fix: field element -2^127 converts to i128

---
 algebra/primefield/src/convert.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/algebra/primefield/src/convert.rs b/algebra/primefield/src/convert.rs
index 1558815..9569060 100644
--- a/algebra/primefield/src/convert.rs
+++ b/algebra/primefield/src/convert.rs
@@ -87,7 +87,10 @@ where
             // UInt should not have interior mutability
             #[allow(clippy::borrow_interior_mutable_const)]
             let val = P::MODULUS.sub(&val);
-            val.to_i128().and_then(i128::checked_neg)
+            // The absolute value can be 2^127, which i128 does not have.
+            val.to_u128()
+                .filter(|&abs| abs <= 1 << 127)
+                .map(|abs| abs.wrapping_neg() as i128)
         }
     }
 
-- 
2.43.0


From 4f93c7ff2dea12283f88571ea9b535f8fb08630e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:46 +0000
Subject: [PATCH 07/38] fix: inverse transform with a cofactor scaled the
 permuted coefficients in natural order

---
 algebra/primefield/src/fft/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/algebra/primefield/src/fft/mod.rs b/algebra/primefield/src/fft/mod.rs
index 2c03f9e..edac12a 100644
--- a/algebra/primefield/src/fft/mod.rs
+++ b/algebra/primefield/src/fft/mod.rs
@@ -134,10 +134,10 @@ where
         self.ifft();
         let cofactor = cofactor.inv().expect("Can not invert cofactor");
         trace!("BEGIN Cofactor shift");
-        let mut c = Field::one();
-        for element in self.iter_mut() {
-            *element *= &c;
-            c *= &cofactor;
+        // The coefficients are in permuted order.
+        let length = self.len();
+        for (i, element) in self.iter_mut().enumerate() {
+            *element *= cofactor.pow(permute_index(length, i));
         }
         trace!("END Cofactor shift");
     }
-- 
2.43.0


From 930149321ad2b18fa625d9f2c449ee253bb15196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:43 +0000
Subject: [PATCH 08/38] fix: adding an affine point to the same Jacobian point
 gave infinity instead of the double

---
 algebra/elliptic-curve/src/jacobian.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebra/elliptic-curve/src/jacobian.rs b/algebra/elliptic-curve/src/jacobian.rs
index 0dc9d4f..a6a761c 100644
--- a/algebra/elliptic-curve/src/jacobian.rs
+++ b/algebra/elliptic-curve/src/jacobian.rs
@@ -193,7 +193,7 @@ impl AddAssign<&Affine> for Jacobian {
                 let u2 = x * &z1z1;
                 let s2 = y * &self.z * &z1z1;
                 if self.x == u2 {
-                    return if self.x == s2 {
+                    return if self.y == s2 {
                         self.double_assign()
                     } else {
                         *self = Self::ZERO
-- 
2.43.0


From 48fa9b59536fc3fd148dd6e855154fdff8c170f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:43 +0000
Subject: [PATCH 09/38] fix: double_mul tested the digit of the second scalar
 for the sign of the first

---
 algebra/elliptic-curve/src/wnaf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebra/elliptic-curve/src/wnaf.rs b/algebra/elliptic-curve/src/wnaf.rs
index c3e2f76..b451bd0 100644
--- a/algebra/elliptic-curve/src/wnaf.rs
+++ b/algebra/elliptic-curve/src/wnaf.rs
@@ -171,7 +171,7 @@ pub fn double_mul(
         r.double_assign();
         if snaf_expansion_a[i] > 0 {
             r += &naf_table_a[(snaf_expansion_a[i] >> 1) as usize];
-        } else if snaf_expansion_b[i] < 0 {
+        } else if snaf_expansion_a[i] < 0 {
             r -= &naf_table_a[(-snaf_expansion_a[i] >> 1) as usize];
         }
         if snaf_expansion_b[i] > 0 {
-- 
2.43.0


From 78b6c9a33ba0720eab9e44b6c0c2e2771c8e62ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:43 +0000
Subject: [PATCH 10/38] fix: batch conversion to affine failed on the point at
 infinity

---
 algebra/elliptic-curve/src/wnaf.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/algebra/elliptic-curve/src/wnaf.rs b/algebra/elliptic-curve/src/wnaf.rs
index b451bd0..2119067 100644
--- a/algebra/elliptic-curve/src/wnaf.rs
+++ b/algebra/elliptic-curve/src/wnaf.rs
@@ -6,7 +6,7 @@ use std::prelude::v1::*;
 
 use crate::{curve::Affine, jacobian::Jacobian, ScalarFieldElement};
 use itertools::izip;
-use zkp_primefield::{FieldElement, Inv, One, SquareInline};
+use zkp_primefield::{FieldElement, Inv, One, SquareInline, Zero};
 use zkp_u256::{Binary, U256};
 
 pub(crate) fn window_table(p: &Affine, naf: &mut [Jacobian]) {
@@ -41,10 +41,12 @@ pub(crate) fn batch_convert(jacobians: &[Jacobian], affines: &mut [Affine]) {
     let mut acc = FieldElement::one();
     // OPT: Check if `izip!` has overhead
     for (jac, val) in izip!(jacobians.iter(), vals.iter_mut()) {
-        // TODO: Handle zeros
         // OPT: First mul is with one, can be removed
         *val = acc.clone();
-        acc *= &jac.z;
+        // The point at infinity has no inverse and is left out
+        if !jac.z.is_zero() {
+            acc *= &jac.z;
+        }
     }
 
     // Invert accumulator
@@ -53,6 +55,11 @@ pub(crate) fn batch_convert(jacobians: &[Jacobian], affines: &mut [Affine]) {
 
     // Compute inverses and affine points
     for (jac, val, aff) in izip!(jacobians.iter(), vals.into_iter(), affines.iter_mut()).rev() {
+        if jac.z.is_zero() {
+            *aff = Affine::Zero;
+            continue;
+        }
+
         // Compute zi
         // OPT: Last mul is with one, can be removed
         let zi = &acc * val;
-- 
2.43.0


From 1333de620e2160d7b88cb04607b6932cde28aabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:43 +0000
Subject: [PATCH 11/38] fix: verifying a signature with a zero component or an
 off-curve key panicked instead of refusing it

---
 crypto/elliptic-curve-crypto/src/public_key.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crypto/elliptic-curve-crypto/src/public_key.rs b/crypto/elliptic-curve-crypto/src/public_key.rs
index 79d7d8f..a825764 100644
--- a/crypto/elliptic-curve-crypto/src/public_key.rs
+++ b/crypto/elliptic-curve-crypto/src/public_key.rs
@@ -20,9 +20,9 @@ impl PublicKey {
     }
 
     pub fn verify(&self, digest: &ScalarFieldElement, signature: &Signature) -> bool {
-        assert!(!signature.r().is_zero());
-        assert!(!signature.w().is_zero());
-        assert!(self.0.is_on_curve());
+        if signature.r().is_zero() || signature.w().is_zero() || !self.0.is_on_curve() {
+            return false;
+        }
 
         let generator_factor = digest * signature.w();
         let pubkey_factor = signature.r() * signature.w();
-- 
2.43.0


From dc61892c9731e9fd8e2afc6f4f420f44fc786758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:37 +0000
Subject: [PATCH 12/38] fix: a Merkle proof was accepted for leaves other than
 the ones it opens, in particular for none

---
 crypto/merkle-tree/src/proof.rs  | 8 +++++++-
 crypto/merkle-tree/src/result.rs | 2 ++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/crypto/merkle-tree/src/proof.rs b/crypto/merkle-tree/src/proof.rs
index 6a8a9ed..e79b40a 100644
--- a/crypto/merkle-tree/src/proof.rs
+++ b/crypto/merkle-tree/src/proof.rs
@@ -45,7 +45,6 @@ impl Proof {
 
     pub fn verify<Leaf: Hashable>(&self, leafs: &[(usize, Leaf)]) -> Result<()> {
         // TODO: Pass leafs by reference?
-        // TODO: Check if the indices line up.
 
         // Construct the leaf nodes
         let mut nodes = leafs
@@ -65,6 +64,13 @@ impl Proof {
             Error::DuplicateLeafMismatch
         );
         nodes.dedup_by_key(|(index, _)| *index);
+        require!(
+            nodes
+                .iter()
+                .map(|(index, _)| *index)
+                .eq(self.commitment.sort_indices(&self.indices)?),
+            Error::LeafIndicesMismatch
+        );
         let mut nodes: VecDeque<(Index, Hash)> = nodes.into_iter().collect();
 
         // Create a mutable closure to pop hashes from the list
diff --git a/crypto/merkle-tree/src/result.rs b/crypto/merkle-tree/src/result.rs
index 4d222bc..06c834e 100644
--- a/crypto/merkle-tree/src/result.rs
+++ b/crypto/merkle-tree/src/result.rs
@@ -10,6 +10,7 @@ pub enum Error {
     IndexOutOfRange,
     IndicesUnsortedOrDuplicate,
     DuplicateLeafMismatch,
+    LeafIndicesMismatch,
     NotEnoughHashes,
     RootHashMismatch,
 }
@@ -26,6 +27,7 @@ impl fmt::Display for Error {
             IndexOutOfRange => write!(f, "Index out of range"),
             IndicesUnsortedOrDuplicate => write!(f, "Indices are unsorted or duplicate"),
             DuplicateLeafMismatch => write!(f, "Duplicate leaf mismatch"),
+            LeafIndicesMismatch => write!(f, "Leaves are not the ones opened by the proof"),
             NotEnoughHashes => write!(f, "Not enough hashes to verify proof"),
             RootHashMismatch => write!(f, "Verification failed since root hashes don't match"),
         }
-- 
2.43.0


From dcce56b078834e73b356a8265961072e13d4ba16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:37 +0000
Subject: [PATCH 13/38] fix: growing a file-backed vector dropped the stale or
 uninitialized contents of its slots

---
 utils/mmap-vec/src/mmap_vec.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/utils/mmap-vec/src/mmap_vec.rs b/utils/mmap-vec/src/mmap_vec.rs
index 3affb39..46aa921 100644
--- a/utils/mmap-vec/src/mmap_vec.rs
+++ b/utils/mmap-vec/src/mmap_vec.rs
@@ -76,9 +76,14 @@ impl<T: Clone> MmapVec<T> {
         if self.length == self.capacity {
             panic!("MmapVec is at capacity")
         }
-        let end = self.length;
+        // The slot is uninitialized or holds an element that is already dropped, so
+        // it is written without dropping its contents.
+        unsafe {
+            (self.mmap.as_mut_ptr() as *mut T)
+                .add(self.length)
+                .write(next);
+        }
         self.length += 1;
-        self[end] = next;
     }
 
     pub fn clear(&mut self) {
@@ -119,9 +124,7 @@ impl<T: Clone> MmapVec<T> {
         if self.length + slice.len() > self.capacity {
             panic!("MmapVec would grow beyond capacity")
         }
-        let start = self.length;
-        self.length += slice.len();
-        self.as_mut_slice()[start..].clone_from_slice(slice);
+        self.extend(slice);
     }
 
     #[inline]
-- 
2.43.0


From 7146635431db30ae400d9d8e2ff6011fe03aadd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:37 +0000
Subject: [PATCH 14/38] fix: a file-backed vector did not drop its elements
 when shrunk by resize or dropped

---
 utils/mmap-vec/src/mmap_vec.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/utils/mmap-vec/src/mmap_vec.rs b/utils/mmap-vec/src/mmap_vec.rs
index 46aa921..5383900 100644
--- a/utils/mmap-vec/src/mmap_vec.rs
+++ b/utils/mmap-vec/src/mmap_vec.rs
@@ -114,10 +114,10 @@ impl<T: Clone> MmapVec<T> {
         if size > self.capacity {
             panic!("MmapVec is at capacity")
         }
+        self.truncate(size);
         while self.length < size {
             self.push(fill.clone());
         }
-        self.length = size;
     }
 
     pub fn extend_from_slice(&mut self, slice: &[T]) {
@@ -140,6 +140,12 @@ impl<T: Clone> MmapVec<T> {
     }
 }
 
+impl<T: Clone> Drop for MmapVec<T> {
+    fn drop(&mut self) {
+        self.clear()
+    }
+}
+
 impl<T: Clone + PartialEq> PartialEq for MmapVec<T> {
     fn eq(&self, other: &Self) -> bool {
         if self.len() != other.len() {
-- 
2.43.0


From d12323191395140e1ba92301bb8d415f7ed6858c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:37 +0000
Subject: [PATCH 15/38] fix: a file-backed vector was too small for its
 capacity when the size in bytes overflows

---
 utils/mmap-vec/src/mmap_vec.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils/mmap-vec/src/mmap_vec.rs b/utils/mmap-vec/src/mmap_vec.rs
index 5383900..f35dc36 100644
--- a/utils/mmap-vec/src/mmap_vec.rs
+++ b/utils/mmap-vec/src/mmap_vec.rs
@@ -34,7 +34,10 @@ impl<T: Clone> MmapVec<T> {
     pub fn with_capacity(capacity: usize) -> Self {
         // TODO: Round up to nearest 4KB
         // Note: mmaped files can not be empty, so we use at leas one byte.
-        let size = max(1, capacity * size_of::<T>());
+        let size = capacity
+            .checked_mul(size_of::<T>())
+            .expect("capacity overflow");
+        let size = max(1, size);
         trace!("Allocating {} MB in anonymous mmap", size / 1_000_000);
         let mmap = MmapOptions::new()
             .len(size)
-- 
2.43.0


From 5c7989f5e880f4f398a7ef6496031a2f2261004e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:37 +0000
Subject: [PATCH 16/38] fix: the peak did not count the allocation that reaches
 it

---
 utils/logging-allocator/src/logging_allocator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/logging-allocator/src/logging_allocator.rs b/utils/logging-allocator/src/logging_allocator.rs
index f9720cf..0a3a67a 100644
--- a/utils/logging-allocator/src/logging_allocator.rs
+++ b/utils/logging-allocator/src/logging_allocator.rs
@@ -107,7 +107,7 @@ unsafe impl GlobalAlloc for LoggingAllocator {
         if !result.is_null() {
             // TODO: We are doing a lot of atomic operations here, what is
             // the performance impact?
-            let allocated = self.allocated.fetch_add(layout.size(), Relaxed);
+            let allocated = self.allocated.fetch_add(layout.size(), Relaxed) + layout.size();
             let _ = self.total_allocated.fetch_add(layout.size(), Relaxed);
             let _ = self.num_allocations.fetch_add(1, Relaxed);
             // HACK: Using `allocated` here again is not completely fool proof
-- 
2.43.0


From a5415d8a880606d55a1d5895c862f4d9cbe1e78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:37 +0000
Subject: [PATCH 17/38] fix: displaying a size that rounds up to the next unit
 panicked

---
 utils/logging-allocator/src/size_bytes.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utils/logging-allocator/src/size_bytes.rs b/utils/logging-allocator/src/size_bytes.rs
index c5c4e26..ee46cb6 100644
--- a/utils/logging-allocator/src/size_bytes.rs
+++ b/utils/logging-allocator/src/size_bytes.rs
@@ -23,21 +23,21 @@ impl fmt::Display for SizeBytes {
                 f,
                 "{:.1$} kB",
                 size / 1.0e3,
-                5 - (size.log10().floor() as usize)
+                5_usize.saturating_sub(size.log10().floor() as usize)
             )
         } else if size < 1.0e9 {
             write!(
                 f,
                 "{:.1$} MB",
                 size / 1.0e6,
-                8 - (size.log10().floor() as usize)
+                8_usize.saturating_sub(size.log10().floor() as usize)
             )
         } else if size < 1.0e12 {
             write!(
                 f,
                 "{:.1$} GB",
                 size / 1.0e9,
-                11 - (size.log10().floor() as usize)
+                11_usize.saturating_sub(size.log10().floor() as usize)
             )
         } else {
             write!(f, "{} TB", size / 1.0e12)
-- 
2.43.0


From 0c52283fa36f13f3c7d1cfee316f95f887ad9336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:18 +0000
Subject: [PATCH 18/38] fix: check a specified constraint at the point of its
 row

check_specific_constraint evaluated X at row - 1 while reading the trace at
row, so every row but the first was checked against the wrong point.
---
 crypto/stark/src/constraint_check.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/crypto/stark/src/constraint_check.rs b/crypto/stark/src/constraint_check.rs
index 27a7367..70f3893 100644
--- a/crypto/stark/src/constraint_check.rs
+++ b/crypto/stark/src/constraint_check.rs
@@ -71,12 +71,7 @@ pub(crate) fn check_specific_constraint(
     which_constraint: usize,
 ) -> bool {
     let trace_generator = FieldElement::root(table.num_rows()).unwrap();
-    let x;
-    if row == 0 {
-        x = FieldElement::one();
-    } else {
-        x = trace_generator.pow(row - 1)
-    }
+    let x = trace_generator.pow(row);
     let len = table.num_rows();
 
     let trace = |i: usize, j: isize| {
-- 
2.43.0


From 51c3bc8f6f4280106af472e0b0338e85f2ba0baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:18 +0000
Subject: [PATCH 19/38] fix: constraint check evaluates inverses

RationalExpression::check returned the operand of an inverse instead of the
inverse, so denominators like X - g.pow(k).inv() were checked on wrong rows.
---
 crypto/stark/src/rational_expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/stark/src/rational_expression.rs b/crypto/stark/src/rational_expression.rs
index 5f2bdec..6f3fcb0 100644
--- a/crypto/stark/src/rational_expression.rs
+++ b/crypto/stark/src/rational_expression.rs
@@ -268,7 +268,7 @@ impl RationalExpression {
                     if res_a == FieldElement::zero() {
                         (FieldElement::one(), false)
                     } else {
-                        (res_a, true)
+                        (res_a.inv().expect("divided by zero"), true)
                     }
                 } else {
                     match *(a.clone()) {
-- 
2.43.0


From ea9a86fdf5a104cb25b2f3780d9ee35c26803de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:18 +0000
Subject: [PATCH 20/38] fix: degree bound of a polynomial in a quotient

Over the common denominator d^k the low order terms of p(n / d) contribute
powers of d to the numerator, so its degree is bounded by k * max(n, d).
---
 crypto/stark/src/rational_expression.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crypto/stark/src/rational_expression.rs b/crypto/stark/src/rational_expression.rs
index 6f3fcb0..1786527 100644
--- a/crypto/stark/src/rational_expression.rs
+++ b/crypto/stark/src/rational_expression.rs
@@ -171,11 +171,11 @@ impl RationalExpression {
             Trace(..) => (trace_degree, 0),
             Polynomial(p, a) => {
                 let (n, d) = a.degree_impl(x_degree, trace_degree);
-                (p.degree() * n, p.degree() * d)
+                (p.degree() * std::cmp::max(n, d), p.degree() * d)
             }
             ClaimPolynomial(_, degree_bound, a, _) => {
                 let (n, d) = a.degree_impl(x_degree, trace_degree);
-                (degree_bound * n, degree_bound * d)
+                (degree_bound * std::cmp::max(n, d), degree_bound * d)
             }
             Add(a, b) => {
                 let (a_numerator, a_denominator) = a.degree_impl(x_degree, trace_degree);
-- 
2.43.0


From 04c57f93b6165b89fd2863cf5c1879a44b6bd6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:34 +0000
Subject: [PATCH 21/38] fix: compare dense polynomials by their coefficients

Equality evaluated both sides at one fixed public point, so polynomials that
agree there, such as X minus that point and zero, compared equal.
---
 crypto/stark/src/polynomial.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/crypto/stark/src/polynomial.rs b/crypto/stark/src/polynomial.rs
index daa3f82..a0d6630 100644
--- a/crypto/stark/src/polynomial.rs
+++ b/crypto/stark/src/polynomial.rs
@@ -3,12 +3,10 @@
 #[cfg(feature = "std")]
 use log::trace;
 use std::prelude::v1::*;
-use zkp_macros_decl::field_element;
 use zkp_mmap_vec::MmapVec;
 #[cfg(feature = "std")]
 use zkp_primefield::{fft::permute_index, Fft, Pow, Root};
 use zkp_primefield::{FieldElement, Zero};
-use zkp_u256::U256;
 
 #[derive(Clone)]
 pub struct DensePolynomial(MmapVec<FieldElement>);
@@ -23,9 +21,9 @@ impl std::fmt::Debug for DensePolynomial {
 
 impl PartialEq for DensePolynomial {
     fn eq(&self, other: &Self) -> bool {
-        // Check equality with evaluation
-        let x = field_element!("754ed488ec9208d1b552bb254c0890042078a9e1f7e36072ebff1bf4e193d11b");
-        self.evaluate(&x) == other.evaluate(&x)
+        // Leading coefficients may be zero, so lengths can differ.
+        let degree = self.degree();
+        degree == other.degree() && self.0[..=degree] == other.0[..=degree]
     }
 }
 impl Eq for DensePolynomial {}
-- 
2.43.0


From c55143a01c36218fbfc2ab88322c8d73c48d8628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:04 +0000
Subject: [PATCH 22/38] fix: verifier refuses proofs that are too short instead
 of panicking

Reading beyond the end of the proof indexed out of bounds. Missing bytes now
read as zero and leave the index beyond the end, so at_end fails and verify
returns an error.
---
 crypto/stark/src/channel.rs | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/crypto/stark/src/channel.rs b/crypto/stark/src/channel.rs
index 1b39dfb..310e201 100644
--- a/crypto/stark/src/channel.rs
+++ b/crypto/stark/src/channel.rs
@@ -97,12 +97,8 @@ impl VerifierChannel {
     // updates the public coin once, with the contents of the entire layer, instead
     // of onces for each FieldElement in the layer.
     pub(crate) fn replay_fri_layer(&mut self, size: usize) -> Vec<FieldElement> {
-        let start_index = self.proof_index;
-        self.proof_index += 32 * size;
-        let layer_contents = &self.proof[start_index..self.proof_index];
-
-        self.coin.write(layer_contents);
-
+        let mut layer_contents = vec![0_u8; 32 * size];
+        self.read_bytes(&mut layer_contents);
         layer_contents
             .chunks_exact(32)
             .map(|bytes| {
@@ -113,14 +109,20 @@ impl VerifierChannel {
 
     fn read_32_bytes(&mut self) -> [u8; 32] {
         let mut holder = [0_u8; 32];
-        let from = self.proof_index;
-        let to = from + 32;
-        self.proof_index = to;
         // OPT: Use arrayref crate or similar to avoid copy
-        holder.copy_from_slice(&self.proof[from..to]);
-        self.coin.write(&holder[..]);
+        self.read_bytes(&mut holder);
         holder
     }
+
+    // Bytes missing from a proof that is too short read as zero. The index then
+    // moves beyond the end of the proof and `at_end` fails.
+    fn read_bytes(&mut self, holder: &mut [u8]) {
+        let available = self.proof.get(self.proof_index..).unwrap_or(&[]);
+        let length = std::cmp::min(available.len(), holder.len());
+        holder[..length].copy_from_slice(&available[..length]);
+        self.proof_index += holder.len();
+        self.coin.write(&*holder);
+    }
 }
 
 impl RandomGenerator<proof_of_work::ChallengeSeed> for PublicCoin {
@@ -140,11 +142,7 @@ impl Writable<proof_of_work::Response> for ProverChannel {
 impl Replayable<proof_of_work::Response> for VerifierChannel {
     fn replay(&mut self) -> proof_of_work::Response {
         let mut holder = [0_u8; 8];
-        let from = self.proof_index;
-        let to = from + 8;
-        self.proof_index = to;
-        holder.copy_from_slice(&self.proof[from..to]);
-        self.coin.write(&holder[..]);
+        self.read_bytes(&mut holder);
         let nonce = u64::from_be_bytes(holder);
         proof_of_work::Response::from_nonce(nonce)
     }
-- 
2.43.0


From 3d00701bbec6bf78b84519a98f618b092d0121c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:04 +0000
Subject: [PATCH 23/38] fix: serialize empty lists as empty JSON arrays

An empty list was written as nothing at all, so proofs with an empty
decommitment did not serialize to valid JSON.
---
 crypto/stark/src/solidity_seralizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/stark/src/solidity_seralizer.rs b/crypto/stark/src/solidity_seralizer.rs
index e86fc1f..8d08190 100644
--- a/crypto/stark/src/solidity_seralizer.rs
+++ b/crypto/stark/src/solidity_seralizer.rs
@@ -41,7 +41,7 @@ impl<T: SoliditySeralize> SoliditySeralize for Vec<T> {
     fn sol_encode(&self) -> String {
         let mut res: String = "".to_string();
         if self.is_empty() {
-            return res;
+            return "[]".to_string();
         }
 
         let (last, rest) = self.split_last().unwrap();
-- 
2.43.0


From 3952ac4de7733f3d4d7d16da8c36a91918da390c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:04 +0000
Subject: [PATCH 24/38] fix: list the trace arguments of claim polynomials

The set of trace cells does not depend on the claim polynomial, only on its
argument; listing them panicked for constraints that are not substituted yet.
---
 crypto/stark/src/rational_expression.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crypto/stark/src/rational_expression.rs b/crypto/stark/src/rational_expression.rs
index 1786527..47460d2 100644
--- a/crypto/stark/src/rational_expression.rs
+++ b/crypto/stark/src/rational_expression.rs
@@ -325,12 +325,13 @@ impl RationalExpression {
                 let _ = s.insert((i, j));
             }
             X | Constant(_) => (),
-            Polynomial(_, a) | Exp(a, _) | Neg(a) | Inv(a) => a.trace_arguments_impl(s),
+            Polynomial(_, a) | ClaimPolynomial(_, _, a, _) | Exp(a, _) | Neg(a) | Inv(a) => {
+                a.trace_arguments_impl(s)
+            }
             Add(a, b) | Mul(a, b) => {
                 a.trace_arguments_impl(s);
                 b.trace_arguments_impl(s);
             }
-            ClaimPolynomial(..) => panic!("ClaimPolynomial should be substituted by Polynomial"),
         }
     }
 }
-- 
2.43.0


From cc987f1fbabe159f90ffbd0d9b3ea2139f9f84c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:04 +0000
Subject: [PATCH 25/38] fix: security level uses the binary logarithm of the
 blowup

The number of bits of the blowup is one more than its logarithm, so the
reported security exceeded the documented formula by half the queries.
---
 crypto/stark/src/constraints.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/stark/src/constraints.rs b/crypto/stark/src/constraints.rs
index e8140e0..96070d6 100644
--- a/crypto/stark/src/constraints.rs
+++ b/crypto/stark/src/constraints.rs
@@ -211,7 +211,7 @@ impl Constraints {
     pub fn security_bits(&self) -> usize {
         // Our conservative formula is (1/2^blowup_log)^(queries/2)*(1/2^pow_bits)
         // So the bit security should be blowup_log*(queries/2) + pow_bits
-        let blowup_log = (64 - (self.blowup as u64).leading_zeros()) as usize;
+        let blowup_log = self.blowup.trailing_zeros() as usize;
         blowup_log * (self.num_queries / 2) + self.pow_bits
     }
 
-- 
2.43.0


From c78ab1948b5df7a3f7451cbeded57310aa10ff4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:04 +0000
Subject: [PATCH 26/38] fix: proof size bound covers all parts of a proof

The bound ignored the blowup in the length of merkle paths, commitments, out
of domain values and the nonce, so small proofs exceeded it, and it underflowed
for traces of fewer than eight rows.
---
 crypto/stark/src/constraints.rs | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/crypto/stark/src/constraints.rs b/crypto/stark/src/constraints.rs
index 96070d6..f633842 100644
--- a/crypto/stark/src/constraints.rs
+++ b/crypto/stark/src/constraints.rs
@@ -221,28 +221,24 @@ impl Constraints {
     // TODO - Improve bound by removing the elements of overlap in
     // worst cases.
     pub fn max_proof_size(&self) -> usize {
-        let trace_len_log = self.trace_nrows().trailing_zeros() as usize;
-        // First we decommit two proofs for each query [one which is the evaluation
-        // domain decommitment and one is the constraints]
-        let mut total_decommitment =
-            self.num_queries * (trace_len_log * self.trace_ncolumns() + trace_len_log);
-        // Now we account for the first layer which is 8 elements [assuming the worst
-        // case we need to decommit 7 other elements].
-        let mut current_size = trace_len_log - 3;
-        total_decommitment += self.num_queries * (current_size + 7);
-
+        let constraint_values = self.degree().next_power_of_two();
+        let mut current_size = (self.trace_nrows() * self.blowup).trailing_zeros() as usize;
+        // Trace and constraint commitments and the out of domain values.
+        let mut total_words = 2 + self.trace_arguments().len() + constraint_values;
+        // For each query a row and a merkle path of both the trace and the constraints.
+        total_words +=
+            self.num_queries * (self.trace_ncolumns() + constraint_values + 2 * current_size);
+        // Each layer has a commitment, and for each query a coset and a merkle path.
         for &i in &self.fri_layout {
             // This worst case assumes that only one in each group is from the previous
             // layer.
             current_size -= i;
-            total_decommitment += self.num_queries * (current_size + (1 << i) - 1);
-        }
-        // Decommits all of the remaining elements
-        let final_list = 1 << current_size;
-        if final_list > self.num_queries {
-            total_decommitment += final_list - self.num_queries;
+            total_words += 1 + self.num_queries * (current_size + (1 << i) - 1);
         }
-        32 * total_decommitment
+        // Coefficients of the final layer
+        total_words += (1 << current_size) / self.blowup;
+        // The proof of work nonce has eight bytes.
+        32 * total_words + 8
     }
 
     pub fn combine(&self, constraint_coefficients: &[FieldElement]) -> RationalExpression {
-- 
2.43.0


From 4005c9bce32a9d661f7839a6d9bb825c20b5dabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:04 +0000
Subject: [PATCH 27/38] fix: refuse trace lengths that are not a power of two

The field has roots of order five and seven, so such lengths were accepted
although the error is documented to cover every length but powers of two.
---
 crypto/stark/src/constraints.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crypto/stark/src/constraints.rs b/crypto/stark/src/constraints.rs
index f633842..6d5f361 100644
--- a/crypto/stark/src/constraints.rs
+++ b/crypto/stark/src/constraints.rs
@@ -70,6 +70,16 @@ pub struct Constraints {
 }
 
 impl Constraints {
+    fn check_trace_length(trace_nrows: usize) -> Result<(), Error> {
+        // The field also has roots of some orders that are not a power of two.
+        if !trace_nrows.is_power_of_two() {
+            return Err(Error::InvalidTraceLength);
+        }
+        FieldElement::root(trace_nrows)
+            .map(|_| ())
+            .ok_or(Error::InvalidTraceLength)
+    }
+
     fn default_fri_layout(trace_nrows: usize) -> Vec<usize> {
         // The binary logarithm of the final layer polynomial degree.
         const LOG2_TARGET: usize = 8;
@@ -104,7 +114,7 @@ impl Constraints {
         channel_seed: Vec<u8>,
         expressions: Vec<RationalExpression>,
     ) -> Result<Self, Error> {
-        let _ = FieldElement::root(trace_nrows).ok_or(Error::InvalidTraceLength)?;
+        Self::check_trace_length(trace_nrows)?;
         // TODO: Hash expressions into channel seed
         // TODO - Examine if we want to up these security params further.
         // 22.5*4  + 0 queries = 90
@@ -138,7 +148,7 @@ impl Constraints {
         op_num_queries: Option<usize>,
         op_fri_layout: Option<Vec<usize>>,
     ) -> Result<Self, Error> {
-        let _ = FieldElement::root(trace_nrows).ok_or(Error::InvalidTraceLength)?;
+        Self::check_trace_length(trace_nrows)?;
         // TODO: Hash expressions into channel seed
         // 15*4 + 30 queries = 90
         Ok(Self {
-- 
2.43.0


From 81c23d9420094d431a089ba0e5b46fbf2de0a822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:09 +0000
Subject: [PATCH 28/38] fix: verifier refuses numbers that are not reduced
 field elements

Values at or above the modulus were taken from the proof as the internal
representation of a field element, which debug builds assert against and on
which the field arithmetic is not defined.
---
 crypto/stark/src/channel.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/crypto/stark/src/channel.rs b/crypto/stark/src/channel.rs
index 310e201..d6a2874 100644
--- a/crypto/stark/src/channel.rs
+++ b/crypto/stark/src/channel.rs
@@ -5,7 +5,7 @@ use std::{convert::TryInto, prelude::v1::*};
 use tiny_keccak::{Hasher, Keccak};
 use zkp_hash::Hash;
 use zkp_macros_decl::u256h;
-use zkp_primefield::FieldElement;
+use zkp_primefield::{FieldElement, Zero};
 use zkp_u256::U256;
 
 pub(crate) trait RandomGenerator<T> {
@@ -45,6 +45,7 @@ pub(crate) struct VerifierChannel {
     pub(crate) coin:  PublicCoin,
     pub(crate) proof: Vec<u8>,
     proof_index:      usize,
+    malformed:        bool,
 }
 
 impl PublicCoin {
@@ -78,6 +79,7 @@ impl VerifierChannel {
             coin: PublicCoin::default(),
             proof,
             proof_index: 0,
+            malformed: false,
         }
     }
 
@@ -85,8 +87,9 @@ impl VerifierChannel {
         self.coin.seed(seed);
     }
 
+    // True if the proof has been read exactly and all values were well-formed.
     pub(crate) fn at_end(self) -> bool {
-        self.proof_index == self.proof.len()
+        self.proof_index == self.proof.len() && !self.malformed
     }
 
     pub(crate) fn get_coefficients(&mut self, n: usize) -> Vec<FieldElement> {
@@ -101,12 +104,21 @@ impl VerifierChannel {
         self.read_bytes(&mut layer_contents);
         layer_contents
             .chunks_exact(32)
-            .map(|bytes| {
-                FieldElement::from_montgomery(U256::from_bytes_be(bytes.try_into().unwrap()))
-            })
+            .map(|bytes| self.field_element(U256::from_bytes_be(bytes.try_into().unwrap())))
             .collect()
     }
 
+    // Numbers that are not the reduced representation of a field element read as
+    // zero, and `at_end` fails.
+    fn field_element(&mut self, montgomery: U256) -> FieldElement {
+        if montgomery < FieldElement::MODULUS {
+            FieldElement::from_montgomery(montgomery)
+        } else {
+            self.malformed = true;
+            FieldElement::zero()
+        }
+    }
+
     fn read_32_bytes(&mut self) -> [u8; 32] {
         let mut holder = [0_u8; 32];
         // OPT: Use arrayref crate or similar to avoid copy
@@ -294,8 +306,8 @@ impl Replayable<U256> for VerifierChannel {
 
 impl Replayable<FieldElement> for VerifierChannel {
     fn replay(&mut self) -> FieldElement {
-        let montgomery_modulus: U256 = self.replay();
-        FieldElement::from_montgomery(montgomery_modulus)
+        let montgomery: U256 = self.replay();
+        self.field_element(montgomery)
     }
 }
 
-- 
2.43.0


From c67725dd6ab770357e1998e71004e777d337b741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:16 +0000
Subject: [PATCH 29/38] fix: bulk read of the on-chain coin returns what it
 reads

---
 crypto/stark-verifier-ethereum/contracts/public_coin.sol | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crypto/stark-verifier-ethereum/contracts/public_coin.sol b/crypto/stark-verifier-ethereum/contracts/public_coin.sol
index 0557472..239e530 100644
--- a/crypto/stark-verifier-ethereum/contracts/public_coin.sol
+++ b/crypto/stark-verifier-ethereum/contracts/public_coin.sol
@@ -78,6 +78,7 @@ library PublicCoin {
         for (uint256 i = 0; i < how_many; i++) {
             result[i] = read_bytes32(coin);
         }
+        return result;
     }
 
     // Adds a new coin with the starting bytes of data hashed to form the digest.
-- 
2.43.0


From 8d5d90036bda5d60b4bcd84d3a9eaf45fd6c8128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:16 +0000
Subject: [PATCH 30/38] fix: on-chain Merkle proof of a single right node

---
 crypto/stark-verifier-ethereum/contracts/merkle.sol | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crypto/stark-verifier-ethereum/contracts/merkle.sol b/crypto/stark-verifier-ethereum/contracts/merkle.sol
index 593ed07..05aea6a 100644
--- a/crypto/stark-verifier-ethereum/contracts/merkle.sol
+++ b/crypto/stark-verifier-ethereum/contracts/merkle.sol
@@ -57,9 +57,10 @@ contract MerkleVerifier is Trace {
                     break
                 }
 
-                // Check if the next index in the ring is the right sibbling.
-                // `index | 1` turns index into the right sibbling (no-op if it already is)
-                switch eq(or(index, 1), mload(add(indices, read_index)))
+                // Check if the next index in the ring is the sibbling. Since indices are
+                // ascending this can only be the case if it is a right sibbling. Note that
+                // when a single node remains the next index in the ring is the index itself.
+                switch eq(xor(index, 1), mload(add(indices, read_index)))
                 case 0 {
                     // No merge with right sibbling, read a decommitment
                     // Decommitment goes in left or right, opposite of the index bit.
-- 
2.43.0


From 2e740b7e172e8f9c0d64c405b27f2e183da7acfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:16 +0000
Subject: [PATCH 31/38] fix: on-chain verifier handles repeated queries

---
 .../stark-verifier-ethereum/contracts/fri.sol |  6 ++-
 .../contracts/stark_verifier.sol              | 46 ++++++++++---------
 2 files changed, 28 insertions(+), 24 deletions(-)

diff --git a/crypto/stark-verifier-ethereum/contracts/fri.sol b/crypto/stark-verifier-ethereum/contracts/fri.sol
index 10496f4..434b0b9 100644
--- a/crypto/stark-verifier-ethereum/contracts/fri.sol
+++ b/crypto/stark-verifier-ethereum/contracts/fri.sol
@@ -231,8 +231,10 @@ contract Fri is Trace, MerkleVerifier {
                 if (next_index == index) {
                     // Set this coset's data to the previous layer data at this index
                     coset[index - coset_start] = values[read_index];
-                    // Advance the index from the read
-                    read_index += 1;
+                    // Advance the index from the read, past repetitions of the same query
+                    do {
+                        read_index += 1;
+                    } while (read_index < indices.length && indices[read_index] == index);
                     if (read_index < indices.length) {
                         // Set the current index to the next one
                         next_index = indices[read_index];
diff --git a/crypto/stark-verifier-ethereum/contracts/stark_verifier.sol b/crypto/stark-verifier-ethereum/contracts/stark_verifier.sol
index 15bb844..91e22b1 100644
--- a/crypto/stark-verifier-ethereum/contracts/stark_verifier.sol
+++ b/crypto/stark-verifier-ethereum/contracts/stark_verifier.sol
@@ -128,30 +128,24 @@ contract StarkVerifier is Trace, ProofOfWork, Fri, ProofTypes {
     ) internal {
         trace('check_commitments', true);
 
-        bytes32[] memory merkle_hashes = new bytes32[](constraint_parameters.number_of_queries);
-        uint256[] memory query_copy = new uint256[](queries.length);
         uint256 eval_domain_size = uint256(2)**(log_eval_domain_size);
 
-        prepare_hashes_and_queries(
+        (bytes32[] memory merkle_hashes, uint256[] memory query_copy) = prepare_hashes_and_queries(
             proof.trace_values,
             uint256(constraint_parameters.number_of_columns),
             queries,
-            eval_domain_size,
-            merkle_hashes,
-            query_copy
+            eval_domain_size
         );
         require(
             verify_merkle_proof(proof.trace_commitment, merkle_hashes, query_copy, proof.trace_decommitment),
             'Trace commitment proof failed'
         );
 
-        prepare_hashes_and_queries(
+        (merkle_hashes, query_copy) = prepare_hashes_and_queries(
             proof.constraint_values,
             uint256(constraint_parameters.constraint_degree),
             queries,
-            eval_domain_size,
-            merkle_hashes,
-            query_copy
+            eval_domain_size
         );
         require(
             verify_merkle_proof(proof.constraint_commitment, merkle_hashes, query_copy, proof.constraint_decommitment),
@@ -162,27 +156,35 @@ contract StarkVerifier is Trace, ProofOfWork, Fri, ProofTypes {
 
     // Reads through the groups in the data and then hashes them and stores the hash in the output array
     // Also copies the queries into the output and adjusts them to merkle tree indexes.
+    // The same query can be drawn several times, but it is a single leaf of the merkle tree, so the
+    // repetitions must have the same data and are left out of the output.
     function prepare_hashes_and_queries(
         uint256[] memory data_groups,
         uint256 data_group_size,
         uint256[] memory queries,
-        uint256 eval_domain_size,
-        bytes32[] memory output_hashes,
-        uint256[] memory output_queries
-    ) internal {
+        uint256 eval_domain_size
+    ) internal returns (bytes32[] memory output_hashes, uint256[] memory output_queries) {
+        output_hashes = new bytes32[](queries.length);
+        output_queries = new uint256[](queries.length);
         uint256[] memory group = new uint256[](data_group_size);
-        for (uint256 i = 0; i < data_groups.length / data_group_size; i++) {
+        uint256 count = 0;
+        for (uint256 i = 0; i < queries.length; i++) {
             for (uint256 j = 0; j < data_group_size; j++) {
                 group[j] = data_groups[i * data_group_size + j];
             }
-            output_hashes[i] = merkle_leaf_hash(group);
-        }
-
-        queries.deep_copy(output_queries);
-        // TODO - Go to depth indexing in merkle to remove this
-        for (uint256 i = 0; i < queries.length; i++) {
-            output_queries[i] = output_queries[i] + eval_domain_size;
+            bytes32 hash = merkle_leaf_hash(group);
+            // TODO - Go to depth indexing in merkle to remove this
+            uint256 index = queries[i] + eval_domain_size;
+            if (count > 0 && output_queries[count - 1] == index) {
+                require(output_hashes[count - 1] == hash, 'Repeated query mismatch');
+            } else {
+                output_hashes[count] = hash;
+                output_queries[count] = index;
+                count += 1;
+            }
         }
+        output_hashes.truncate(count);
+        output_queries.truncate(count);
         delete group;
     }
 
-- 
2.43.0


From 09afc236fe6f15fd043781bd5ee8c2c3ff13f1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:16 +0000
Subject: [PATCH 32/38] fix: on-chain verifier checks the number of values in a
 proof

---
 .../contracts/default_cs.sol                  |  2 ++
 .../contracts/stark_verifier.sol              | 31 +++++++++++++++++++
 2 files changed, 33 insertions(+)

diff --git a/crypto/stark-verifier-ethereum/contracts/default_cs.sol b/crypto/stark-verifier-ethereum/contracts/default_cs.sol
index 770ae8c..4a32275 100644
--- a/crypto/stark-verifier-ethereum/contracts/default_cs.sol
+++ b/crypto/stark-verifier-ethereum/contracts/default_cs.sol
@@ -52,6 +52,8 @@ abstract contract DefaultConstraintSystem is ConstraintSystem, Trace  {
         }
 
         uint256[] memory layout = layout_col_major();
+        // Assembly below reads a pair of layout entries for every oods value
+        require(layout.length == 2 * data.trace_oods_values.length, 'Wrong number of trace oods values');
         for (uint256 i = 0; i < queries.length; i++) {
             uint256 result = 0;
             {
diff --git a/crypto/stark-verifier-ethereum/contracts/stark_verifier.sol b/crypto/stark-verifier-ethereum/contracts/stark_verifier.sol
index 91e22b1..28581e9 100644
--- a/crypto/stark-verifier-ethereum/contracts/stark_verifier.sol
+++ b/crypto/stark-verifier-ethereum/contracts/stark_verifier.sol
@@ -27,6 +27,7 @@ contract StarkVerifier is Trace, ProofOfWork, Fri, ProofTypes {
             proof.public_inputs
         );
         trace('initalize_system', false);
+        check_proof_dimensions(proof, constraint_parameters);
         // Write data to the coin and read random data from it
         trace('write_data_and_read_random', true);
         (
@@ -72,6 +73,36 @@ contract StarkVerifier is Trace, ProofOfWork, Fri, ProofTypes {
         trace('verify_proof', false);
     }
 
+    // Checks that the proof has as many values as the parameters call for
+    function check_proof_dimensions(StarkProof memory proof, ProofParameters memory constraint_parameters)
+        internal
+        pure
+    {
+        uint256 number_of_queries = constraint_parameters.number_of_queries;
+        require(
+            proof.trace_values.length == number_of_queries * constraint_parameters.number_of_columns,
+            'Wrong number of trace values'
+        );
+        require(
+            proof.constraint_values.length == number_of_queries * constraint_parameters.constraint_degree,
+            'Wrong number of constraint values'
+        );
+        require(
+            proof.constraint_oods_values.length == constraint_parameters.constraint_degree,
+            'Wrong number of constraint oods values'
+        );
+        // A longer last layer would not show that the polynomial is of low degree
+        uint256 log_last_layer_size = constraint_parameters.log_trace_length;
+        for (uint256 i = 0; i < constraint_parameters.fri_layout.length; i++) {
+            require(log_last_layer_size >= constraint_parameters.fri_layout[i], 'Too many fri layers');
+            log_last_layer_size -= constraint_parameters.fri_layout[i];
+        }
+        require(
+            proof.last_layer_coefficients.length == uint256(1) << log_last_layer_size,
+            'Wrong number of last layer coefficients'
+        );
+    }
+
     // This function write to the channel and reads from the channel to get the randomized data
     function write_data_and_read_random(
         StarkProof memory proof,
-- 
2.43.0


From 919051d157daf2ef8cefeb13cb6fc87b5933a5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:16 +0000
Subject: [PATCH 33/38] fix: on-chain verifier refuses numbers that are not
 reduced field elements

---
 .../contracts/stark_verifier.sol              | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/crypto/stark-verifier-ethereum/contracts/stark_verifier.sol b/crypto/stark-verifier-ethereum/contracts/stark_verifier.sol
index 28581e9..e0ffd9a 100644
--- a/crypto/stark-verifier-ethereum/contracts/stark_verifier.sol
+++ b/crypto/stark-verifier-ethereum/contracts/stark_verifier.sol
@@ -28,6 +28,7 @@ contract StarkVerifier is Trace, ProofOfWork, Fri, ProofTypes {
         );
         trace('initalize_system', false);
         check_proof_dimensions(proof, constraint_parameters);
+        check_field_elements(proof);
         // Write data to the coin and read random data from it
         trace('write_data_and_read_random', true);
         (
@@ -103,6 +104,24 @@ contract StarkVerifier is Trace, ProofOfWork, Fri, ProofTypes {
         );
     }
 
+    // Checks that all numbers in the proof are reduced, which the field arithmetic relies on
+    function check_field_elements(StarkProof memory proof) internal pure {
+        require_field_elements(proof.trace_values);
+        require_field_elements(proof.constraint_values);
+        require_field_elements(proof.trace_oods_values);
+        require_field_elements(proof.constraint_oods_values);
+        for (uint256 i = 0; i < proof.fri_values.length; i++) {
+            require_field_elements(proof.fri_values[i]);
+        }
+        require_field_elements(proof.last_layer_coefficients);
+    }
+
+    function require_field_elements(uint256[] memory values) internal pure {
+        for (uint256 i = 0; i < values.length; i++) {
+            require(values[i] < PrimeField.MODULUS, 'Not a field element');
+        }
+    }
+
     // This function write to the channel and reads from the channel to get the randomized data
     function write_data_and_read_random(
         StarkProof memory proof,
-- 
2.43.0


From 40a009054db3a260bebc0a758da8f6427541fc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:16 +0000
Subject: [PATCH 34/38] fix: on-chain verifier returns true for a valid proof

---
 crypto/stark-verifier-ethereum/contracts/stark_verifier.sol | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crypto/stark-verifier-ethereum/contracts/stark_verifier.sol b/crypto/stark-verifier-ethereum/contracts/stark_verifier.sol
index e0ffd9a..9306583 100644
--- a/crypto/stark-verifier-ethereum/contracts/stark_verifier.sol
+++ b/crypto/stark-verifier-ethereum/contracts/stark_verifier.sol
@@ -72,6 +72,7 @@ contract StarkVerifier is Trace, ProofOfWork, Fri, ProofTypes {
         check_out_of_domain_sample_result(proof, oods_point, constraint_evaluated_oods_point);
 
         trace('verify_proof', false);
+        return true;
     }
 
     // Checks that the proof has as many values as the parameters call for
-- 
2.43.0


From 5c3ecfeff63ba60e999b61e49c2fc32cdc211197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:16 +0000
Subject: [PATCH 35/38] fix: generated contract has the number of constraint
 polynomials

---
 crypto/stark/src/solidity_verifier.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crypto/stark/src/solidity_verifier.rs b/crypto/stark/src/solidity_verifier.rs
index d45dbfc..f4d636d 100644
--- a/crypto/stark/src/solidity_verifier.rs
+++ b/crypto/stark/src/solidity_verifier.rs
@@ -558,8 +558,10 @@ fn autogen_oods_contract(
         .max()
         .expect("No constraints");
 
+    // The number of polynomials the constraint polynomial is split into
+    let constraint_degree = max_degree.next_power_of_two();
     let trace_contract =
-        autogen_trace_layout(&trace_keys, n_cols, max_degree, blowup, system_name)?;
+        autogen_trace_layout(&trace_keys, n_cols, constraint_degree, blowup, system_name)?;
 
     // TODO - Variable naming
     let name = format!("{}/{}Trace.sol", output_directory, system_name);
-- 
2.43.0


From 6607e30abdbbea49cd4b5ed4972fcd2ff4f5f598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:57 +0000
Subject: [PATCH 36/38] fix: on-chain constraint systems work for any blowup

DefaultConstraintSystem takes the blowup as a parameter, but placed the
queries in a domain of 16 times the trace length, so that honest proofs
with another blowup were refused.
---
 crypto/stark-verifier-ethereum/contracts/default_cs.sol | 2 +-
 crypto/stark/assets/Wrapper.sol                         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crypto/stark-verifier-ethereum/contracts/default_cs.sol b/crypto/stark-verifier-ethereum/contracts/default_cs.sol
index 4a32275..f0e8e2b 100644
--- a/crypto/stark-verifier-ethereum/contracts/default_cs.sol
+++ b/crypto/stark-verifier-ethereum/contracts/default_cs.sol
@@ -39,7 +39,7 @@ abstract contract DefaultConstraintSystem is ConstraintSystem, Trace  {
             queries,
             eval,
             oods_point,
-            data.log_trace_length + 4,
+            eval.log_eval_domain_size,
             data.log_trace_length
         );
         trace('oods_prepare_inverses', false);
diff --git a/crypto/stark/assets/Wrapper.sol b/crypto/stark/assets/Wrapper.sol
index e636152..0134ee7 100644
--- a/crypto/stark/assets/Wrapper.sol
+++ b/crypto/stark/assets/Wrapper.sol
@@ -42,7 +42,7 @@ contract {name} is {name}Trace \{
     ) external override returns (uint256[] memory, uint256) \{
         ProofData memory data = ProofData(
             proof.trace_values,
-            PrimeField.init_eval(params.log_trace_length + 4),
+            PrimeField.init_eval(params.log_trace_length + params.log_blowup),
             proof.constraint_values, proof.trace_oods_values,
             proof.constraint_oods_values,
             params.log_trace_length);
-- 
2.43.0


From f7342815b0a57e9a20ffee8678e0e931ff6b8a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:33 +0000
Subject: [PATCH 37/38] fix: proving with a row offset below minus the trace
 length panicked

---
 crypto/stark/src/algebraic_dag.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/stark/src/algebraic_dag.rs b/crypto/stark/src/algebraic_dag.rs
index 1885090..1e3e994 100644
--- a/crypto/stark/src/algebraic_dag.rs
+++ b/crypto/stark/src/algebraic_dag.rs
@@ -520,7 +520,7 @@ impl AlgebraicGraph {
                         // Sizes are small enough
                         #[allow(clippy::cast_possible_wrap)]
                         let row = (self.row + i) as isize;
-                        let row = (n + row + trace_blowup * *o) % n;
+                        let row = (row + trace_blowup * *o).rem_euclid(n);
                         // Sizes are small enough
                         #[allow(clippy::cast_sign_loss)]
                         let row = row as usize;
-- 
2.43.0


From 2b1ec7ccb40f618a243946659f7cad4536ed4f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:33 +0000
Subject: [PATCH 38/38] fix: checking constraints with a row offset below minus
 the trace length panicked

---
 crypto/stark/src/constraint_check.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/crypto/stark/src/constraint_check.rs b/crypto/stark/src/constraint_check.rs
index 70f3893..b535837 100644
--- a/crypto/stark/src/constraint_check.rs
+++ b/crypto/stark/src/constraint_check.rs
@@ -47,11 +47,7 @@ pub fn check_constraints(
                 table[((j + row) % len, i)].clone()
             } else {
                 let j: usize = j.abs().try_into().unwrap();
-                if row < j {
-                    table[(len + row - j, i)].clone()
-                } else {
-                    table[(row - j, i)].clone()
-                }
+                table[((len - j % len + row) % len, i)].clone()
             }
         };
         for (which, expression) in constraints.expressions().iter().enumerate() {
@@ -80,11 +76,7 @@ pub(crate) fn check_specific_constraint(
             table[((j + row) % len, i)].clone()
         } else {
             let j: usize = j.abs().try_into().unwrap();
-            if row < j {
-                table[(len + row - j, i)].clone()
-            } else {
-                table[(row - j, i)].clone()
-            }
+            table[((len - j % len + row) % len, i)].clone()
         }
     };
 
-- 
2.43.0

