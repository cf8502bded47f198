From db49f4b461550818b557142cec6bd7a2b160aaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 1/6] fix: frame an absent info as an empty one in
 PoprfServer::evaluate

PoprfClient::finalize(.., None) hashes an empty info, so that the server's
evaluate(input, None) gave a different output for the same exchange.
---
 src/poprf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/poprf.rs b/src/poprf.rs
index a0fd531..eaa9bd8 100644
--- a/src/poprf.rs
+++ b/src/poprf.rs
@@ -418,7 +418,7 @@ where
 
         let issued_element = CS::Group::serialize_elem(evaluated_element);
 
-        server_evaluate_hash_input::<CS>(input, info, issued_element)
+        server_evaluate_hash_input::<CS>(input, Some(info.unwrap_or_default()), issued_element)
     }
 
     /// Retrieves the server's public key
-- 
2.43.0


From 908888f51ddf47724865c05c91f432d4b8d76c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:21 +0000
Subject: [PATCH 2/6] fix: return Error::Batch instead of panicking in
 PoprfServer::batch_blind_evaluate

More than u16::MAX blinded elements made the unwrap() of the proof panic.
VoprfServer::batch_blind_evaluate returns the error.
---
 src/poprf.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/poprf.rs b/src/poprf.rs
index eaa9bd8..da3aed8 100644
--- a/src/poprf.rs
+++ b/src/poprf.rs
@@ -284,6 +284,8 @@ where
     ///
     /// # Errors
     /// - [`Error::Info`] if the `info` is longer than `u16::MAX`.
+    /// - [`Error::Batch`] if the number of `blinded_elements` is longer then
+    ///   [`u16::MAX`].
     /// - [`Error::Protocol`] if the protocol fails and can't be completed.
     #[cfg(feature = "alloc")]
     pub fn batch_blind_evaluate<'a, R: RngCore + CryptoRng, IE>(
@@ -304,15 +306,13 @@ where
 
         let prepared_evaluation_elements: Vec<_> = prepared_evaluation_elements.collect();
 
-        // This can't fail because we know the size of the inputs.
         let PoprfServerBatchEvaluateFinishResult { messages, proof } =
             Self::batch_blind_evaluate_finish::<_, _, Vec<_>>(
                 rng,
                 blinded_elements.into_iter(),
                 &prepared_evaluation_elements,
                 &prepared_tweak,
-            )
-            .unwrap();
+            )?;
 
         let messages: Vec<_> = messages.collect();
 
-- 
2.43.0


From 06cb8d2c4cc75ef63df15720d0ceffcb7460f892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:25 +0000
Subject: [PATCH 3/6] fix: accept only the compressed encoding of NIST curve
 elements

deserialize_elem() also took SEC1's compact encoding, which has the same
length, so that two encodings were valid for the same element.
---
 src/group/elliptic_curve.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/group/elliptic_curve.rs b/src/group/elliptic_curve.rs
index e74b1c2..9bf9432 100644
--- a/src/group/elliptic_curve.rs
+++ b/src/group/elliptic_curve.rs
@@ -10,7 +10,7 @@ use digest::core_api::BlockSizeUser;
 use digest::{FixedOutput, HashMarker};
 use elliptic_curve::group::cofactor::CofactorGroup;
 use elliptic_curve::hash2curve::{ExpandMsgXmd, FromOkm, GroupDigest};
-use elliptic_curve::sec1::{FromEncodedPoint, ModulusSize, ToEncodedPoint};
+use elliptic_curve::sec1::{EncodedPoint, FromEncodedPoint, ModulusSize, ToEncodedPoint};
 use elliptic_curve::{
     AffinePoint, Field, FieldBytesSize, Group as _, ProjectivePoint, PublicKey, Scalar, SecretKey,
 };
@@ -74,9 +74,15 @@ where
     }
 
     fn deserialize_elem(element_bits: &[u8]) -> Result<Self::Elem> {
-        PublicKey::<Self>::from_sec1_bytes(element_bits)
+        // Only the compressed form is the canonical encoding, SEC1 has others.
+        let encoded_point = EncodedPoint::<Self>::from_bytes(element_bits)
+            .ok()
+            .filter(|encoded_point| encoded_point.is_compressed())
+            .ok_or(Error::Deserialization)?;
+
+        Option::<PublicKey<Self>>::from(PublicKey::from_encoded_point(&encoded_point))
             .map(|public_key| public_key.to_projective())
-            .map_err(|_| Error::Deserialization)
+            .ok_or(Error::Deserialization)
     }
 
     fn random_scalar<R: RngCore + CryptoRng>(rng: &mut R) -> Self::Scalar {
-- 
2.43.0


From 721642fe8b6c62a158e2ba5bdffbe076a670f79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:25 +0000
Subject: [PATCH 4/6] fix: reject truncated NIST curve scalars

SecretKey::from_slice() left-pads slices of 24 bytes and more, so that
new_with_key() took a truncated private key for another one.
---
 src/group/elliptic_curve.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/group/elliptic_curve.rs b/src/group/elliptic_curve.rs
index 9bf9432..5128261 100644
--- a/src/group/elliptic_curve.rs
+++ b/src/group/elliptic_curve.rs
@@ -14,7 +14,7 @@ use elliptic_curve::sec1::{EncodedPoint, FromEncodedPoint, ModulusSize, ToEncode
 use elliptic_curve::{
     AffinePoint, Field, FieldBytesSize, Group as _, ProjectivePoint, PublicKey, Scalar, SecretKey,
 };
-use generic_array::typenum::{IsLess, IsLessOrEqual, U256};
+use generic_array::typenum::{IsLess, IsLessOrEqual, Unsigned, U256};
 use generic_array::GenericArray;
 use rand_core::{CryptoRng, RngCore};
 
@@ -107,6 +107,11 @@ where
     }
 
     fn deserialize_scalar(scalar_bits: &[u8]) -> Result<Self::Scalar> {
+        // `SecretKey::from_slice()` pads shorter slices.
+        if scalar_bits.len() != Self::ScalarLen::USIZE {
+            return Err(Error::Deserialization);
+        }
+
         SecretKey::<Self>::from_slice(scalar_bits)
             .map(|secret_key| *secret_key.to_nonzero_scalar())
             .map_err(|_| Error::Deserialization)
-- 
2.43.0


From c61d458caadc2dc7ec044014eb5553c96060a2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:26 +0000
Subject: [PATCH 5/6] fix: reject inputs longer than u16::MAX in blind

As documented, and as in RFC 9497: no output can be computed for them, which
the client only learned when finalizing.
---
 src/common.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common.rs b/src/common.rs
index f790edd..6efda1a 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -443,6 +443,8 @@ where
     <CS::Hash as OutputSizeUser>::OutputSize:
         IsLess<U256> + IsLessOrEqual<<CS::Hash as BlockSizeUser>::BlockSize>,
 {
+    i2osp_2(input.len()).map_err(|_| Error::Input)?;
+
     let hashed_point = hash_to_group::<CS>(input, mode)?;
     Ok(hashed_point * blind)
 }
-- 
2.43.0


From 26e9dcc0303249ff945abf49a6621d7ebd4ab307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:27 +0000
Subject: [PATCH 6/6] fix: reject inputs that hash to the identity in blind

As in RFC 9497, and as the servers' evaluate() does: the blinded element would
be the identity for any blind.
---
 src/common.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common.rs b/src/common.rs
index 6efda1a..397b3ab 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -446,6 +446,10 @@ where
     i2osp_2(input.len()).map_err(|_| Error::Input)?;
 
     let hashed_point = hash_to_group::<CS>(input, mode)?;
+    if CS::Group::is_identity_elem(hashed_point).into() {
+        return Err(Error::Input);
+    }
+
     Ok(hashed_point * blind)
 }
 
-- 
2.43.0

