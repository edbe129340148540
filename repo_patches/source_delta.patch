From 7dd189af772473f4001b1782671e1e007d1a6f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:22 +0000
Subject: [PATCH 01/85] fix: ursa_sharing: Share::to_bytes no longer recurses
 into itself

---
 ursa_sharing/src/shamir.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ursa_sharing/src/shamir.rs b/ursa_sharing/src/shamir.rs
index 9ce63cc..3e789d7 100644
--- a/ursa_sharing/src/shamir.rs
+++ b/ursa_sharing/src/shamir.rs
@@ -43,7 +43,7 @@ impl Share {
     /// The identifier is the first 4 bytes
     pub fn to_bytes(&self) -> Vec<u8> {
         let mut o = self.identifier.to_be_bytes().to_vec();
-        o.append(&mut self.to_bytes());
+        o.extend_from_slice(&self.value);
         o
     }
 
-- 
2.43.0


From 7971269f08880b6cf6a33d3a7b8a04006fc31376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:22 +0000
Subject: [PATCH 02/85] fix: ursa_sharing: decode every commitment of a share
 verifier, refuse short input

---
 ursa_sharing/src/feldman.rs  | 12 ++++++++++--
 ursa_sharing/src/pedersen.rs | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/ursa_sharing/src/feldman.rs b/ursa_sharing/src/feldman.rs
index 89c64db..2ea5fee 100644
--- a/ursa_sharing/src/feldman.rs
+++ b/ursa_sharing/src/feldman.rs
@@ -175,15 +175,23 @@ impl<S: Field, R: Group<S>> TryFrom<&[u8]> for FeldmanVerifier<S, R> {
         let mut c_size = [0u8; 4];
         c_size.copy_from_slice(&value[offset..end]);
         let cs = u32::from_be_bytes(c_size) as usize;
-        let mut commitments = Vec::with_capacity(cs);
         offset = end;
-        end += R::Size::to_usize();
+        if (value.len() - offset) / R::Size::to_usize() < cs {
+            return Err(SharingError::PedersenVerifierMinSize(
+                cs.saturating_mul(R::Size::to_usize())
+                    .saturating_add(offset),
+                value.len(),
+            ));
+        }
+        let mut commitments = Vec::with_capacity(cs);
         for _ in 0..cs {
+            end = offset + R::Size::to_usize();
             let c = R::from_bytes(&value[offset..end])?;
             commitments.push(ShareVerifier {
                 value: c,
                 phantom: PhantomData,
             });
+            offset = end;
         }
         Ok(Self { g, commitments })
     }
diff --git a/ursa_sharing/src/pedersen.rs b/ursa_sharing/src/pedersen.rs
index f22ae4b..f68b8b9 100644
--- a/ursa_sharing/src/pedersen.rs
+++ b/ursa_sharing/src/pedersen.rs
@@ -207,15 +207,23 @@ impl<S: Field, R: Group<S>> TryFrom<&[u8]> for PedersenVerifier<S, R> {
         let mut c_size = [0u8; 4];
         c_size.copy_from_slice(&value[offset..end]);
         let cs = u32::from_be_bytes(c_size) as usize;
-        let mut commitments = Vec::with_capacity(cs);
         offset = end;
-        end += R::Size::to_usize();
+        if (value.len() - offset) / R::Size::to_usize() < cs {
+            return Err(SharingError::PedersenVerifierMinSize(
+                cs.saturating_mul(R::Size::to_usize())
+                    .saturating_add(offset),
+                value.len(),
+            ));
+        }
+        let mut commitments = Vec::with_capacity(cs);
         for _ in 0..cs {
+            end = offset + R::Size::to_usize();
             let c = R::from_bytes(&value[offset..end])?;
             commitments.push(ShareVerifier {
                 value: c,
                 phantom: PhantomData,
             });
+            offset = end;
         }
         Ok(Self { g, h, commitments })
     }
-- 
2.43.0


From 26fe2fdeddbc97ac31708fef3c0f81a1a459965c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:22 +0000
Subject: [PATCH 03/85] fix: ursa_sharing: verify shares only against exactly
 threshold commitments

---
 ursa_sharing/src/feldman.rs  | 2 +-
 ursa_sharing/src/pedersen.rs | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/ursa_sharing/src/feldman.rs b/ursa_sharing/src/feldman.rs
index 2ea5fee..b05e95d 100644
--- a/ursa_sharing/src/feldman.rs
+++ b/ursa_sharing/src/feldman.rs
@@ -78,7 +78,7 @@ impl Scheme {
         share: &ShamirShare,
         verifier: &FeldmanVerifier<S, R>,
     ) -> SharingResult<()> {
-        if verifier.commitments.len() < self.threshold {
+        if verifier.commitments.len() != self.threshold {
             return Err(SharingError::ShareMinThreshold);
         }
         let s = S::from_bytes(&share.value)?;
diff --git a/ursa_sharing/src/pedersen.rs b/ursa_sharing/src/pedersen.rs
index f68b8b9..d534e43 100644
--- a/ursa_sharing/src/pedersen.rs
+++ b/ursa_sharing/src/pedersen.rs
@@ -95,6 +95,9 @@ impl Scheme {
         blind_share: &ShamirShare,
         verifier: &PedersenVerifier<S, R>,
     ) -> SharingResult<()> {
+        if verifier.commitments.len() != self.threshold {
+            return Err(SharingError::ShareMinThreshold);
+        }
         let s = S::from_bytes(&share.value)?;
         if !s.is_valid() {
             return Err(SharingError::ShareInvalidValue);
-- 
2.43.0


From 081b38269feb89200a543981aa0ba1305b0e148a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:53 +0000
Subject: [PATCH 04/85] fix: cl: refuse a blinded secrets proof without a
 response instead of panicking

---
 libursa/src/cl/issuer.rs | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/libursa/src/cl/issuer.rs b/libursa/src/cl/issuer.rs
index 086f309..6a437f4 100644
--- a/libursa/src/cl/issuer.rs
+++ b/libursa/src/cl/issuer.rs
@@ -1045,7 +1045,15 @@ impl Issuer {
                         format!("Value by key '{}' not found in cred_pr_pub_key.r", attr),
                     )
                 })?;
-                let m_cap = &blinded_cred_secrets_correctness_proof.m_caps[attr];
+                let m_cap = blinded_cred_secrets_correctness_proof
+                    .m_caps
+                    .get(attr)
+                    .ok_or_else(|| {
+                        err_msg(
+                            UrsaCryptoErrorKind::InvalidStructure,
+                            format!("Value by key '{}' not found in m_caps", attr),
+                        )
+                    })?;
                 acc?.mod_mul(
                     &pk_r.mod_exp(&m_cap, &cred_pr_pub_key.n, Some(&mut ctx))?,
                     &cred_pr_pub_key.n,
@@ -1055,7 +1063,24 @@ impl Issuer {
         )?;
 
         for (key, value) in &blinded_cred_secrets.committed_attributes {
-            let m_cap = &blinded_cred_secrets_correctness_proof.m_caps[key];
+            let m_cap = blinded_cred_secrets_correctness_proof
+                .m_caps
+                .get(key)
+                .ok_or_else(|| {
+                    err_msg(
+                        UrsaCryptoErrorKind::InvalidStructure,
+                        format!("Value by key '{}' not found in m_caps", key),
+                    )
+                })?;
+            let r_cap = blinded_cred_secrets_correctness_proof
+                .r_caps
+                .get(key)
+                .ok_or_else(|| {
+                    err_msg(
+                        UrsaCryptoErrorKind::InvalidStructure,
+                        format!("Value by key '{}' not found in r_caps", key),
+                    )
+                })?;
             let comm_att_cap = value
                 .inverse(&cred_pr_pub_key.n, Some(&mut ctx))?
                 .mod_exp(
@@ -1068,7 +1093,7 @@ impl Issuer {
                         &cred_pr_pub_key.z,
                         &m_cap,
                         &cred_pr_pub_key.s,
-                        &blinded_cred_secrets_correctness_proof.r_caps[key],
+                        &r_cap,
                         &cred_pr_pub_key.n,
                         &mut ctx,
                     )?,
-- 
2.43.0


From a11fd818c52976ecff8856b46955cf0458f4d5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:53 +0000
Subject: [PATCH 05/85] fix: cl: refuse to sign an attribute that is known and
 also blinded by the holder

---
 libursa/src/cl/issuer.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libursa/src/cl/issuer.rs b/libursa/src/cl/issuer.rs
index 6a437f4..567eee7 100644
--- a/libursa/src/cl/issuer.rs
+++ b/libursa/src/cl/issuer.rs
@@ -1251,6 +1251,13 @@ impl Issuer {
                 )
             })?;
 
+            if blinded_cred_secrets.hidden_attributes.contains(key) {
+                return Err(err_msg(
+                    UrsaCryptoErrorKind::InvalidStructure,
+                    format!("Attribute '{}' is both known and blinded", key),
+                ));
+            }
+
             rx = pk_r
                 .mod_exp(attr.value(), &p_pub_key.n, Some(&mut context))?
                 .mod_mul(&rx, &p_pub_key.n, Some(&mut context))?;
-- 
2.43.0


From 23064a5212cbe7bc1c3962242b48c249c438767c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:53 +0000
Subject: [PATCH 06/85] fix: cl: holder checks u_i of the witness signature

---
 libursa/src/cl/prover.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libursa/src/cl/prover.rs b/libursa/src/cl/prover.rs
index 470515d..04179cc 100644
--- a/libursa/src/cl/prover.rs
+++ b/libursa/src/cl/prover.rs
@@ -809,6 +809,16 @@ impl Prover {
             ));
         }
 
+        let pair_gu_calc = Pair::pair(&cred_rev_pub_key.g, &r_cred.witness_signature.u_i)?;
+        let pair_gu = Pair::pair(&r_cred.g_i, &cred_rev_pub_key.u)?;
+
+        if pair_gu_calc != pair_gu {
+            return Err(err_msg(
+                UrsaCryptoErrorKind::InvalidStructure,
+                "Issuer is sending incorrect data",
+            ));
+        }
+
         let m2 = GroupOrderElement::from_bytes(&r_cnxt_m2.to_bytes()?)?;
 
         let pair_h1 = Pair::pair(
-- 
2.43.0


From 64311ca49eaa9b7f65913926feba7458851a12f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:12 +0000
Subject: [PATCH 07/85] fix: pair: malformed strings of group elements are an
 error, not a panic

---
 libursa/src/pair/amcl.rs | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/libursa/src/pair/amcl.rs b/libursa/src/pair/amcl.rs
index 25b1b43..f8c7ed1 100644
--- a/libursa/src/pair/amcl.rs
+++ b/libursa/src/pair/amcl.rs
@@ -1,6 +1,6 @@
 use errors::prelude::*;
 
-use amcl::bn254::big::BIG;
+use amcl::bn254::big::{BASEBITS, BIG, NLEN};
 
 use amcl::bn254::rom::{
     CURVE_GX, CURVE_GY, CURVE_ORDER, CURVE_PXA, CURVE_PXB, CURVE_PYA, CURVE_PYB, MODBYTES,
@@ -8,6 +8,7 @@ use amcl::bn254::rom::{
 
 use amcl::bn254::ecp::ECP;
 use amcl::bn254::ecp2::ECP2;
+use amcl::bn254::fp::FEXCESS;
 use amcl::bn254::fp12::FP12;
 use amcl::bn254::fp2::FP2;
 use amcl::bn254::pair::{ate, ate2, fexp, g1mul, g2mul, gtpow};
@@ -48,6 +49,28 @@ impl PairMocksHelper {
     }
 }
 
+/// Checks that `value` consists of exactly `num` field elements in their string form
+/// (an excess counter and a hexadecimal number each), which amcl itself takes for granted.
+fn check_hex_field_elements(value: &str, num: usize) -> UrsaCryptoResult<()> {
+    let parts: Vec<&str> = value.split_whitespace().collect();
+    let valid = parts.len() == 2 * num
+        && parts.chunks(2).all(|p| {
+            let excess = p[0].parse::<i32>().unwrap_or(0);
+            excess > 0 && excess <= FEXCESS && is_hex(p[1], NLEN * BASEBITS / 4)
+        });
+    if !valid {
+        return Err(err_msg(
+            UrsaCryptoErrorKind::InvalidStructure,
+            "Invalid string representation of field elements",
+        ));
+    }
+    Ok(())
+}
+
+fn is_hex(value: &str, max_len: usize) -> bool {
+    !value.is_empty() && value.len() <= max_len && value.chars().all(|c| c.is_ascii_hexdigit())
+}
+
 #[cfg(not(test))]
 fn random_mod_order() -> UrsaCryptoResult<BIG> {
     _random_mod_order()
@@ -145,6 +168,7 @@ impl PointG1 {
     }
 
     pub fn from_string(str: &str) -> UrsaCryptoResult<PointG1> {
+        check_hex_field_elements(str, 3)?;
         Ok(PointG1 {
             point: ECP::from_hex(str.to_string()),
         })
@@ -298,6 +322,7 @@ impl PointG2 {
     }
 
     pub fn from_string(str: &str) -> UrsaCryptoResult<PointG2> {
+        check_hex_field_elements(str, 6)?;
         Ok(PointG2 {
             point: ECP2::from_hex(str.to_string()),
         })
@@ -468,6 +493,12 @@ impl GroupOrderElement {
     }
 
     pub fn from_string(str: &str) -> UrsaCryptoResult<GroupOrderElement> {
+        if !is_hex(str, MODBYTES * 2) {
+            return Err(err_msg(
+                UrsaCryptoErrorKind::InvalidStructure,
+                "Invalid string representation of GroupOrderElement",
+            ));
+        }
         Ok(GroupOrderElement {
             bn: BIG::from_hex(str.to_string()),
         })
@@ -604,6 +635,7 @@ impl Pair {
     }
 
     pub fn from_string(str: &str) -> UrsaCryptoResult<Pair> {
+        check_hex_field_elements(str, 12)?;
         Ok(Pair {
             pair: FP12::from_hex(str.to_string()),
         })
-- 
2.43.0


From afd0c8d7a7e2c1256c2bdfe872c822974c5b659b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:01 +0000
Subject: [PATCH 08/85] fix: cl: verifier bounds the response for e, without
 which proofs could be made without a credential

---
 libursa/src/cl/verifier.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libursa/src/cl/verifier.rs b/libursa/src/cl/verifier.rs
index ea47cc2..762f01e 100644
--- a/libursa/src/cl/verifier.rs
+++ b/libursa/src/cl/verifier.rs
@@ -1,5 +1,5 @@
 use bn::BigNumber;
-use cl::constants::{ITERATION, LARGE_E_START_VALUE};
+use cl::constants::{ITERATION, LARGE_ETILDE, LARGE_E_START_VALUE};
 use cl::hash::get_hash_as_int;
 use cl::helpers::*;
 use cl::*;
@@ -454,6 +454,13 @@ impl ProofVerifier {
         trace!("ProofVerifier::_verify_equality: >>> p_pub_key: {:?}, proof: {:?}, c_hash: {:?}, cred_schema: {:?}, sub_proof_request: {:?}",
                p_pub_key, proof, c_hash, cred_schema, sub_proof_request);
 
+        if proof.e.is_negative() || proof.e.num_bits()? > LARGE_ETILDE as i32 + 1 {
+            return Err(err_msg(
+                UrsaCryptoErrorKind::ProofRejected,
+                "Blinded value of e is out of range",
+            ));
+        }
+
         let unrevealed_attrs = cred_schema
             .attrs
             .union(&non_cred_schema.attrs)
-- 
2.43.0


From c1fc96b2c4098abe9adaac61de04773865c59ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:01 +0000
Subject: [PATCH 09/85] fix: cl: verifier links a predicate proof to the
 attribute of the credential

---
 libursa/src/cl/verifier.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libursa/src/cl/verifier.rs b/libursa/src/cl/verifier.rs
index 762f01e..3ce929d 100644
--- a/libursa/src/cl/verifier.rs
+++ b/libursa/src/cl/verifier.rs
@@ -430,6 +430,16 @@ impl ProofVerifier {
         )?;
 
         for ne_proof in primary_proof.ne_proofs.iter() {
+            if primary_proof.eq_proof.m.get(&ne_proof.predicate.attr_name) != Some(&ne_proof.mj) {
+                return Err(err_msg(
+                    UrsaCryptoErrorKind::ProofRejected,
+                    format!(
+                        "Predicate proof is not about the attribute '{}' of the credential",
+                        ne_proof.predicate.attr_name
+                    ),
+                ));
+            }
+
             t_hat.append(&mut ProofVerifier::_verify_ne_predicate(
                 p_pub_key, ne_proof, c_hash,
             )?)
-- 
2.43.0


From d764d8a0578ad98188138419ef22efb94fcc67cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:01 +0000
Subject: [PATCH 10/85] fix: cl: verifier takes the commitments under the
 challenge from the proof itself

---
 libursa/src/cl/mod.rs      | 22 ++++++++++++++++++++++
 libursa/src/cl/verifier.rs | 11 +++++++++++
 2 files changed, 33 insertions(+)

diff --git a/libursa/src/cl/mod.rs b/libursa/src/cl/mod.rs
index df7c573..1ad4441 100755
--- a/libursa/src/cl/mod.rs
+++ b/libursa/src/cl/mod.rs
@@ -1018,6 +1018,28 @@ pub struct PrimaryProof {
     ne_proofs: Vec<PrimaryPredicateInequalityProof>,
 }
 
+impl PrimaryProof {
+    /// Commitments of the proof in the order in which the prover hashes them
+    pub(crate) fn as_c_list(&self) -> UrsaCryptoResult<Vec<BigNumber>> {
+        let mut c_list = vec![self.eq_proof.a_prime.try_clone()?];
+        for ne_proof in self.ne_proofs.iter() {
+            for key in (0..constants::ITERATION)
+                .map(|i| i.to_string())
+                .chain(std::iter::once("DELTA".to_string()))
+            {
+                let t = ne_proof.t.get(&key).ok_or_else(|| {
+                    err_msg(
+                        UrsaCryptoErrorKind::ProofRejected,
+                        format!("Value by key '{}' not found in proof.t", key),
+                    )
+                })?;
+                c_list.push(t.try_clone()?);
+            }
+        }
+        Ok(c_list)
+    }
+}
+
 #[cfg_attr(feature = "serde", derive(Serialize))]
 #[derive(Debug, PartialEq, Eq)]
 pub struct PrimaryEqualProof {
diff --git a/libursa/src/cl/verifier.rs b/libursa/src/cl/verifier.rs
index 3ce929d..8af5d68 100644
--- a/libursa/src/cl/verifier.rs
+++ b/libursa/src/cl/verifier.rs
@@ -225,6 +225,8 @@ impl ProofVerifier {
         ProofVerifier::_check_verify_params_consistency(&self.credentials, proof)?;
 
         let mut tau_list: Vec<Vec<u8>> = Vec::new();
+        // The commitments as the proof itself contains them, in the order of the prover
+        let mut c_list: Vec<Vec<u8>> = Vec::new();
 
         for idx in 0..proof.proofs.len() {
             let proof_item = &proof.proofs[idx];
@@ -250,6 +252,7 @@ impl ProofVerifier {
                     )?
                     .as_slice()?,
                 );
+                c_list.extend_from_slice(&non_revocation_proof.c_list.as_list()?);
             };
 
             // Check that `m_hat`s of all common attributes are same. Also `m_hat` for each common attribute must be present in each sub proof
@@ -301,6 +304,14 @@ impl ProofVerifier {
                 &credential.non_credential_schema,
                 &credential.sub_proof_request,
             )?)?;
+            c_list.append_vec(&proof_item.primary_proof.as_c_list()?)?;
+        }
+
+        if c_list != proof.aggregated_proof.c_list {
+            return Err(err_msg(
+                UrsaCryptoErrorKind::ProofRejected,
+                "Commitments of the aggregated proof not correspond to the sub proofs",
+            ));
         }
 
         let mut values: Vec<Vec<u8>> = Vec::new();
-- 
2.43.0


From 5521bceac3e37e63e3c38ad8af0d8ba31181ea58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:01 +0000
Subject: [PATCH 11/85] fix: cl: verifier refuses a proof without the
 non-revocation part it asked for

---
 libursa/src/cl/verifier.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libursa/src/cl/verifier.rs b/libursa/src/cl/verifier.rs
index 8af5d68..7b6d29e 100644
--- a/libursa/src/cl/verifier.rs
+++ b/libursa/src/cl/verifier.rs
@@ -231,6 +231,16 @@ impl ProofVerifier {
         for idx in 0..proof.proofs.len() {
             let proof_item = &proof.proofs[idx];
             let credential = &self.credentials[idx];
+            if credential.pub_key.r_key.is_some()
+                && credential.rev_reg.is_some()
+                && credential.rev_key_pub.is_some()
+                && proof_item.non_revoc_proof.is_none()
+            {
+                return Err(err_msg(
+                    UrsaCryptoErrorKind::ProofRejected,
+                    "Non-revocation proof is required but missing",
+                ));
+            }
             if let (
                 Some(non_revocation_proof),
                 Some(cred_rev_pub_key),
-- 
2.43.0


From e0b9d52e486d0d20931dc28886084b2f3b79d5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:01 +0000
Subject: [PATCH 12/85] fix: cl: a verifier decides each proof on its own

---
 libursa/src/cl/verifier.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libursa/src/cl/verifier.rs b/libursa/src/cl/verifier.rs
index 7b6d29e..dc72550 100644
--- a/libursa/src/cl/verifier.rs
+++ b/libursa/src/cl/verifier.rs
@@ -224,6 +224,11 @@ impl ProofVerifier {
 
         ProofVerifier::_check_verify_params_consistency(&self.credentials, proof)?;
 
+        // Values of common attributes belong to one proof
+        for m_hat in self.common_attributes.values_mut() {
+            *m_hat = None;
+        }
+
         let mut tau_list: Vec<Vec<u8>> = Vec::new();
         // The commitments as the proof itself contains them, in the order of the prover
         let mut c_list: Vec<Vec<u8>> = Vec::new();
-- 
2.43.0


From 3890b1fae18d915b93f8feed6d0ff7b8837a5f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:20 +0000
Subject: [PATCH 13/85] fix: cl: predicate differences no longer overflow 32
 bits

---
 libursa/src/cl/helpers.rs |  2 +-
 libursa/src/cl/mod.rs     | 15 ++++++++-------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/libursa/src/cl/helpers.rs b/libursa/src/cl/helpers.rs
index cfc03e2..5f80d3e 100644
--- a/libursa/src/cl/helpers.rs
+++ b/libursa/src/cl/helpers.rs
@@ -475,7 +475,7 @@ fn largest_square_less_than(delta: usize) -> usize {
 
 //Express the natural number `delta` as a sum of four integer squares,
 // i.e `delta = a^2 + b^2 + c^2 + d^2` using Lagrange's four-square theorem
-pub fn four_squares(delta: i32) -> UrsaCryptoResult<HashMap<String, BigNumber>> {
+pub fn four_squares(delta: i64) -> UrsaCryptoResult<HashMap<String, BigNumber>> {
     trace!("Helpers::four_squares: >>> delta: {:?}", delta);
 
     if delta < 0 {
diff --git a/libursa/src/cl/mod.rs b/libursa/src/cl/mod.rs
index 1ad4441..5bfc2b2 100755
--- a/libursa/src/cl/mod.rs
+++ b/libursa/src/cl/mod.rs
@@ -939,21 +939,22 @@ pub struct Predicate {
 }
 
 impl Predicate {
-    pub fn get_delta(&self, attr_value: i32) -> i32 {
+    pub fn get_delta(&self, attr_value: i32) -> i64 {
+        let (attr_value, value) = (i64::from(attr_value), i64::from(self.value));
         match self.p_type {
-            PredicateType::GE => attr_value - self.value,
-            PredicateType::GT => attr_value - self.value - 1,
-            PredicateType::LE => self.value - attr_value,
-            PredicateType::LT => self.value - attr_value - 1,
+            PredicateType::GE => attr_value - value,
+            PredicateType::GT => attr_value - value - 1,
+            PredicateType::LE => value - attr_value,
+            PredicateType::LT => value - attr_value - 1,
         }
     }
 
     pub fn get_delta_prime(&self) -> UrsaCryptoResult<BigNumber> {
         match self.p_type {
             PredicateType::GE => BigNumber::from_dec(&self.value.to_string()),
-            PredicateType::GT => BigNumber::from_dec(&(self.value + 1).to_string()),
+            PredicateType::GT => BigNumber::from_dec(&(i64::from(self.value) + 1).to_string()),
             PredicateType::LE => BigNumber::from_dec(&self.value.to_string()),
-            PredicateType::LT => BigNumber::from_dec(&(self.value - 1).to_string()),
+            PredicateType::LT => BigNumber::from_dec(&(i64::from(self.value) - 1).to_string()),
         }
     }
 
-- 
2.43.0


From 1a256b4934fa628cd933804fae31822b1f148bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:20 +0000
Subject: [PATCH 14/85] fix: cl: refuse revocation indexes outside the registry

---
 libursa/src/cl/issuer.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/libursa/src/cl/issuer.rs b/libursa/src/cl/issuer.rs
index 567eee7..ef4304f 100644
--- a/libursa/src/cl/issuer.rs
+++ b/libursa/src/cl/issuer.rs
@@ -537,7 +537,7 @@ impl Issuer {
 
         let prev_accum = rev_reg.accum;
 
-        let index = Issuer::_get_index(max_cred_num, rev_idx);
+        let index = Issuer::_get_index(max_cred_num, rev_idx)?;
 
         rev_tails_accessor.access_tail(index, &mut |tail| {
             rev_reg.accum = rev_reg.accum.sub(tail).unwrap();
@@ -638,7 +638,7 @@ impl Issuer {
 
         let prev_accum = rev_reg.accum;
 
-        let index = Issuer::_get_index(max_cred_num, rev_idx);
+        let index = Issuer::_get_index(max_cred_num, rev_idx)?;
 
         rev_tails_accessor.access_tail(index, &mut |tail| {
             rev_reg.accum = rev_reg.accum.add(tail).unwrap();
@@ -744,13 +744,13 @@ impl Issuer {
 
         let prev_acc = rev_reg.accum;
         for rev_idx in issued.iter() {
-            let tail_id = Self::_get_index(max_cred_num, *rev_idx);
+            let tail_id = Self::_get_index(max_cred_num, *rev_idx)?;
             rev_tails_accessor.access_tail(tail_id, &mut |tail| {
                 rev_reg.accum = rev_reg.accum.add(tail).unwrap()
             })?;
         }
         for rev_idx in revoked.iter() {
-            let tail_id = Self::_get_index(max_cred_num, *rev_idx);
+            let tail_id = Self::_get_index(max_cred_num, *rev_idx)?;
             rev_tails_accessor.access_tail(tail_id, &mut |tail| {
                 rev_reg.accum = rev_reg.accum.sub(tail).unwrap()
             })?;
@@ -959,7 +959,7 @@ impl Issuer {
 
         if issuance_by_default {
             for i in 1..=max_cred_num {
-                let index = Issuer::_get_index(max_cred_num, i);
+                let index = Issuer::_get_index(max_cred_num, i)?;
                 accum = accum.add(&Tail::new_tail(
                     index,
                     &cred_rev_pub_key.g_dash,
@@ -1324,8 +1324,14 @@ impl Issuer {
         Ok(signature_correctness_proof)
     }
 
-    fn _get_index(max_cred_num: u32, rev_idx: u32) -> u32 {
-        max_cred_num + 1 - rev_idx
+    fn _get_index(max_cred_num: u32, rev_idx: u32) -> UrsaCryptoResult<u32> {
+        if rev_idx == 0 || rev_idx > max_cred_num {
+            return Err(err_msg(
+                UrsaCryptoErrorKind::InvalidStructure,
+                format!("Revocation index is out of range 1..={}", max_cred_num),
+            ));
+        }
+        Ok(max_cred_num - rev_idx + 1)
     }
 
     fn _new_non_revocation_credential(
@@ -1371,6 +1377,8 @@ impl Issuer {
                 )
             })?;
 
+        let index = Issuer::_get_index(max_cred_num, rev_idx)?;
+
         let vr_prime_prime = GroupOrderElement::new()?;
         let c = GroupOrderElement::new()?;
         let m2 = GroupOrderElement::from_bytes(&cred_context.to_bytes()?)?;
@@ -1405,8 +1413,6 @@ impl Issuer {
                     &transform_u32_to_array_of_u8(rev_idx),
                 )?)?)?;
 
-        let index = Issuer::_get_index(max_cred_num, rev_idx);
-
         let rev_reg_delta = if issuance_by_default {
             None
         } else {
-- 
2.43.0


From db519a88bfcda4e94a4a3c1b5a5d5e9d8141c93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:20 +0000
Subject: [PATCH 15/85] fix: cl: SimpleTailsAccessor refuses an unknown tail
 instead of panicking

---
 libursa/src/cl/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libursa/src/cl/mod.rs b/libursa/src/cl/mod.rs
index 5bfc2b2..653c023 100755
--- a/libursa/src/cl/mod.rs
+++ b/libursa/src/cl/mod.rs
@@ -580,7 +580,13 @@ pub struct SimpleTailsAccessor {
 
 impl RevocationTailsAccessor for SimpleTailsAccessor {
     fn access_tail(&self, tail_id: u32, accessor: &mut dyn FnMut(&Tail)) -> UrsaCryptoResult<()> {
-        accessor(&self.tails[tail_id as usize]);
+        let tail = self.tails.get(tail_id as usize).ok_or_else(|| {
+            err_msg(
+                UrsaCryptoErrorKind::InvalidStructure,
+                format!("No tail with id {}", tail_id),
+            )
+        })?;
+        accessor(tail);
         Ok(())
     }
 }
-- 
2.43.0


From 9d5154a51820a7e2cf0ba92f570e77717718cf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:38 +0000
Subject: [PATCH 16/85] fix: cl: a failed update leaves the revocation registry
 as it was

---
 libursa/src/cl/issuer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libursa/src/cl/issuer.rs b/libursa/src/cl/issuer.rs
index ef4304f..17df576 100644
--- a/libursa/src/cl/issuer.rs
+++ b/libursa/src/cl/issuer.rs
@@ -743,18 +743,20 @@ impl Issuer {
         );
 
         let prev_acc = rev_reg.accum;
+        let mut accum = rev_reg.accum;
         for rev_idx in issued.iter() {
             let tail_id = Self::_get_index(max_cred_num, *rev_idx)?;
             rev_tails_accessor.access_tail(tail_id, &mut |tail| {
-                rev_reg.accum = rev_reg.accum.add(tail).unwrap()
+                accum = accum.add(tail).unwrap()
             })?;
         }
         for rev_idx in revoked.iter() {
             let tail_id = Self::_get_index(max_cred_num, *rev_idx)?;
             rev_tails_accessor.access_tail(tail_id, &mut |tail| {
-                rev_reg.accum = rev_reg.accum.sub(tail).unwrap()
+                accum = accum.sub(tail).unwrap()
             })?;
         }
+        rev_reg.accum = accum;
 
         let rev_reg_delta = RevocationRegistryDelta {
             prev_accum: Some(prev_acc),
-- 
2.43.0


From 90f1f4eaedd3f433b6f852e10a22e213d83671a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:38 +0000
Subject: [PATCH 17/85] fix: cl: witness refuses revocation indexes outside the
 registry

---
 libursa/src/cl/mod.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/libursa/src/cl/mod.rs b/libursa/src/cl/mod.rs
index 653c023..d56eecb 100755
--- a/libursa/src/cl/mod.rs
+++ b/libursa/src/cl/mod.rs
@@ -681,6 +681,19 @@ pub struct Witness {
 }
 
 impl Witness {
+    /// Tail by which the credential `idx` enters the witness of the credential `rev_idx`
+    fn _get_index(max_cred_num: u32, rev_idx: u32, idx: u32) -> UrsaCryptoResult<u32> {
+        for i in &[rev_idx, idx] {
+            if *i == 0 || *i > max_cred_num {
+                return Err(err_msg(
+                    UrsaCryptoErrorKind::InvalidStructure,
+                    format!("Revocation index is out of range 1..={}", max_cred_num),
+                ));
+            }
+        }
+        Ok(max_cred_num - idx + 1 + rev_idx)
+    }
+
     pub fn new<RTA>(
         rev_idx: u32,
         max_cred_num: u32,
@@ -706,7 +719,7 @@ impl Witness {
 
         issued.remove(&rev_idx);
         for j in issued.iter() {
-            let index = max_cred_num + 1 - j + rev_idx;
+            let index = Witness::_get_index(max_cred_num, rev_idx, *j)?;
             rev_tails_accessor.access_tail(index, &mut |tail| {
                 omega = omega.add(tail).unwrap();
             })?;
@@ -742,7 +755,7 @@ impl Witness {
                 continue;
             }
 
-            let index = max_cred_num + 1 - j + rev_idx;
+            let index = Witness::_get_index(max_cred_num, rev_idx, *j)?;
             rev_tails_accessor.access_tail(index, &mut |tail| {
                 omega_denom = omega_denom.add(tail).unwrap();
             })?;
@@ -754,7 +767,7 @@ impl Witness {
                 continue;
             }
 
-            let index = max_cred_num + 1 - j + rev_idx;
+            let index = Witness::_get_index(max_cred_num, rev_idx, *j)?;
             rev_tails_accessor.access_tail(index, &mut |tail| {
                 omega_num = omega_num.add(tail).unwrap();
             })?;
-- 
2.43.0


From be8222b89e3fcfc0247bd2b2588b510569c4eb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:10 +0000
Subject: [PATCH 18/85] fix: cl: decompose multiples of large powers of two
 into four squares in reasonable time

---
 libursa/src/cl/helpers.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/libursa/src/cl/helpers.rs b/libursa/src/cl/helpers.rs
index 5f80d3e..fb01d2f 100644
--- a/libursa/src/cl/helpers.rs
+++ b/libursa/src/cl/helpers.rs
@@ -488,7 +488,16 @@ pub fn four_squares(delta: i64) -> UrsaCryptoResult<HashMap<String, BigNumber>>
         ));
     }
 
-    let d = delta as usize;
+    // The squares that sum up to a multiple of 8 are all even: its only representations are
+    // those of a quarter of it, doubled. Large powers of two have so few that the search below
+    // would not find them in any reasonable time.
+    let mut d = delta as usize;
+    let mut scale = 1;
+    while d != 0 && d % 8 == 0 {
+        d /= 4;
+        scale *= 2;
+    }
+
     let mut roots: [usize; 4] = [largest_square_less_than(d), 0, 0, 0];
 
     'outer: for i in (1..=roots[0]).rev() {
@@ -525,10 +534,10 @@ pub fn four_squares(delta: i64) -> UrsaCryptoResult<HashMap<String, BigNumber>>
     }
 
     let res = hashmap![
-        "0".to_string() => BigNumber::from_dec(&roots[0].to_string()[..])?,
-        "1".to_string() => BigNumber::from_dec(&roots[1].to_string()[..])?,
-        "2".to_string() => BigNumber::from_dec(&roots[2].to_string()[..])?,
-        "3".to_string() => BigNumber::from_dec(&roots[3].to_string()[..])?
+        "0".to_string() => BigNumber::from_dec(&(scale * roots[0]).to_string()[..])?,
+        "1".to_string() => BigNumber::from_dec(&(scale * roots[1]).to_string()[..])?,
+        "2".to_string() => BigNumber::from_dec(&(scale * roots[2]).to_string()[..])?,
+        "3".to_string() => BigNumber::from_dec(&(scale * roots[3]).to_string()[..])?
     ];
 
     trace!("Helpers::four_squares: <<< res: {:?}", res);
-- 
2.43.0


From b3ebbd4724ff3464be204a9e8839f47fcc546bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:55 +0000
Subject: [PATCH 19/85] fix: bn: increment and decrement keep the sign of the
 number

---
 libursa/src/bn/openssl.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libursa/src/bn/openssl.rs b/libursa/src/bn/openssl.rs
index ba7e82e..a3b6d2b 100644
--- a/libursa/src/bn/openssl.rs
+++ b/libursa/src/bn/openssl.rs
@@ -499,15 +499,15 @@ impl BigNumber {
     }
 
     pub fn increment(&self) -> UrsaCryptoResult<BigNumber> {
-        let mut bn = BigNum::from_slice(&self.openssl_bn.to_vec())?;
-        bn.add_word(1)?;
-        Ok(BigNumber { openssl_bn: bn })
+        let mut bn = self.try_clone()?;
+        bn.openssl_bn.add_word(1)?;
+        Ok(bn)
     }
 
     pub fn decrement(&self) -> UrsaCryptoResult<BigNumber> {
-        let mut bn = BigNum::from_slice(&self.openssl_bn.to_vec())?;
-        bn.sub_word(1)?;
-        Ok(BigNumber { openssl_bn: bn })
+        let mut bn = self.try_clone()?;
+        bn.openssl_bn.sub_word(1)?;
+        Ok(bn)
     }
 
     pub fn lshift1(&self) -> UrsaCryptoResult<BigNumber> {
-- 
2.43.0


From 778073f61f0ab43492eb71e3f401838452093f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:44 +0000
Subject: [PATCH 20/85] fix: bn: inverse of a negative number in the pure Rust
 backend

---
 libursa/src/bn/rust.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libursa/src/bn/rust.rs b/libursa/src/bn/rust.rs
index 6f77067..1cde16a 100644
--- a/libursa/src/bn/rust.rs
+++ b/libursa/src/bn/rust.rs
@@ -397,7 +397,7 @@ impl BigNumber {
         //    return t
         //
         let (mut t, mut new_t) = (BigInt::zero(), BigInt::one());
-        let (mut r, mut new_r) = (n.clone(), self.bn.clone());
+        let (mut r, mut new_r) = (n.clone(), self.bn.mod_floor(&n));
 
         while !new_r.is_zero() {
             let quotient = &r / &new_r;
-- 
2.43.0


From bd8ea5dfb3f4bc7b237d48a970921510d7c0f647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:44 +0000
Subject: [PATCH 21/85] fix: bn: any number to the power of zero is one in the
 pure Rust backend

---
 libursa/src/bn/rust.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libursa/src/bn/rust.rs b/libursa/src/bn/rust.rs
index 1cde16a..10c38cb 100644
--- a/libursa/src/bn/rust.rs
+++ b/libursa/src/bn/rust.rs
@@ -352,7 +352,9 @@ impl BigNumber {
         a: &BigNumber,
         _ctx: Option<&mut BigNumberContext>,
     ) -> UrsaCryptoResult<BigNumber> {
-        if self.bn.bits() == 0 {
+        if a.bn.is_zero() {
+            return Ok(BigNumber { bn: BigInt::one() });
+        } else if self.bn.bits() == 0 {
             return Ok(BigNumber::default());
         } else if a.bn.is_one() {
             return Ok(self.try_clone()?);
-- 
2.43.0


From 37b28a7168394ad77a7d3238b2310b7b57bc2617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:14 +0000
Subject: [PATCH 22/85] fix: pair: differences and negations of scalars are
 right and reduced

---
 libursa/src/pair/amcl.rs | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/libursa/src/pair/amcl.rs b/libursa/src/pair/amcl.rs
index f8c7ed1..e98dacb 100644
--- a/libursa/src/pair/amcl.rs
+++ b/libursa/src/pair/amcl.rs
@@ -448,19 +448,7 @@ impl GroupOrderElement {
 
     /// (GroupOrderElement - GroupOrderElement) mod GroupOrder
     pub fn sub_mod(&self, r: &GroupOrderElement) -> UrsaCryptoResult<GroupOrderElement> {
-        //need to use modneg if sub is negative
-        let mut diff = self.bn;
-        diff.sub(&r.bn);
-        let mut zero = BIG::new();
-        zero.zero();
-
-        if diff < zero {
-            return Ok(GroupOrderElement {
-                bn: BIG::modneg(&diff, &BIG::new_ints(&CURVE_ORDER)),
-            });
-        }
-
-        Ok(GroupOrderElement { bn: diff })
+        self.add_mod(&r.mod_neg()?)
     }
 
     /// (GroupOrderElement * GroupOrderElement) mod GroupOrder
@@ -484,6 +472,8 @@ impl GroupOrderElement {
     pub fn mod_neg(&self) -> UrsaCryptoResult<GroupOrderElement> {
         let mut r = self.bn;
         r = BIG::modneg(&r, &BIG::new_ints(&CURVE_ORDER));
+        // the negation of zero is zero, not the group order
+        r.rmod(&BIG::new_ints(&CURVE_ORDER));
         Ok(GroupOrderElement { bn: r })
     }
 
-- 
2.43.0


From 9c3eb0c88a6d0de8c92909ed24bc77a84921922c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:37 +0000
Subject: [PATCH 23/85] fix: pair: the pairing of two neutral elements is one

---
 libursa/src/pair/amcl.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libursa/src/pair/amcl.rs b/libursa/src/pair/amcl.rs
index e98dacb..0fa0b3b 100644
--- a/libursa/src/pair/amcl.rs
+++ b/libursa/src/pair/amcl.rs
@@ -580,6 +580,10 @@ impl Pair {
     pub const BYTES_REPR_SIZE: usize = MODBYTES * 16;
     /// e(PointG1, PointG2)
     pub fn pair(p: &PointG1, q: &PointG2) -> UrsaCryptoResult<Pair> {
+        // the pairing with the neutral element is one: the Miller loop gives zero for two of them
+        if p.is_inf()? || q.point.is_infinity() {
+            return Ok(Pair { pair: FP12::new_int(1) });
+        }
         let mut result = fexp(&ate(&q.point, &p.point));
         result.reduce();
 
@@ -588,6 +592,12 @@ impl Pair {
 
     /// e(PointG1, PointG2, PointG1_1, PointG2_1)
     pub fn pair2(p: &PointG1, q: &PointG2, r: &PointG1, s: &PointG2) -> UrsaCryptoResult<Pair> {
+        if p.is_inf()? || q.point.is_infinity() {
+            return Self::pair(r, s);
+        }
+        if r.is_inf()? || s.point.is_infinity() {
+            return Self::pair(p, q);
+        }
         let mut result = fexp(&ate2(&q.point, &p.point, &s.point, &r.point));
         result.reduce();
 
-- 
2.43.0


From 80d38513463098aafae9b73b9913d21e53221983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:43 +0000
Subject: [PATCH 24/85] fix: symm: short messages can be decrypted with every
 cipher

---
 libursa/src/encryption/symm/aescbc.rs                | 3 ++-
 libursa/src/encryption/symm/aescbc_asm.rs            | 3 ++-
 libursa/src/encryption/symm/aesgcm.rs                | 6 +++---
 libursa/src/encryption/symm/aesgcm_asm.rs            | 6 +++---
 libursa/src/encryption/symm/chacha20poly1305.rs      | 4 ++--
 libursa/src/encryption/symm/chacha20poly1305_asm.rs  | 4 ++--
 libursa/src/encryption/symm/xchacha20poly1305.rs     | 4 ++--
 libursa/src/encryption/symm/xchacha20poly1305_asm.rs | 4 ++--
 8 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/libursa/src/encryption/symm/aescbc.rs b/libursa/src/encryption/symm/aescbc.rs
index ad12717..ffdd87b 100644
--- a/libursa/src/encryption/symm/aescbc.rs
+++ b/libursa/src/encryption/symm/aescbc.rs
@@ -72,7 +72,8 @@ macro_rules! aes_cbc_hmac_impl {
             ) -> Result<Vec<u8>, Error> {
                 let payload = ciphertext.into();
 
-                if payload.msg.len() < Self::TagSize::to_usize() + $algokeysize::to_usize() {
+                // One block of 16 bytes at least, whatever the size of the key
+                if payload.msg.len() < Self::TagSize::to_usize() + 16 {
                     return Err(Error);
                 }
 
diff --git a/libursa/src/encryption/symm/aescbc_asm.rs b/libursa/src/encryption/symm/aescbc_asm.rs
index b95e2d8..1a24fde 100644
--- a/libursa/src/encryption/symm/aescbc_asm.rs
+++ b/libursa/src/encryption/symm/aescbc_asm.rs
@@ -76,7 +76,8 @@ macro_rules! aes_cbc_hmac_impl {
                 let payload = ciphertext.into();
                 let cipher = OpenSslCipher::$cipherid();
 
-                if payload.msg.len() < Self::TagSize::to_usize() + cipher.key_len() {
+                // One block at least, whatever the size of the key
+                if payload.msg.len() < Self::TagSize::to_usize() + cipher.block_size() {
                     return Err(Error);
                 }
 
diff --git a/libursa/src/encryption/symm/aesgcm.rs b/libursa/src/encryption/symm/aesgcm.rs
index 6c4c460..60ca833 100644
--- a/libursa/src/encryption/symm/aesgcm.rs
+++ b/libursa/src/encryption/symm/aesgcm.rs
@@ -1,7 +1,7 @@
 use super::Encryptor;
 use aead::{
     generic_array::{
-        typenum::{Unsigned, U0, U12, U16, U32},
+        typenum::{Unsigned, U0, U12, U16, U28, U32},
         GenericArray,
     },
     Aead, Error, NewAead, Payload,
@@ -19,7 +19,7 @@ macro_rules! aes_gcm_impl {
         }
 
         impl Encryptor for $name {
-            type MinSize = U32;
+            type MinSize = U28;
         }
 
         impl NewAead for $name {
@@ -52,7 +52,7 @@ macro_rules! aes_gcm_impl {
             ) -> Result<Vec<u8>, Error> {
                 let payload = ciphertext.into();
 
-                if payload.msg.len() < Self::TagSize::to_usize() + Self::NonceSize::to_usize() {
+                if payload.msg.len() < Self::TagSize::to_usize() {
                     return Err(Error);
                 }
 
diff --git a/libursa/src/encryption/symm/aesgcm_asm.rs b/libursa/src/encryption/symm/aesgcm_asm.rs
index 6471f28..b477c43 100644
--- a/libursa/src/encryption/symm/aesgcm_asm.rs
+++ b/libursa/src/encryption/symm/aesgcm_asm.rs
@@ -1,7 +1,7 @@
 use super::Encryptor;
 use aead::{
     generic_array::{
-        typenum::{Unsigned, U0, U12, U16, U32},
+        typenum::{Unsigned, U0, U12, U16, U28, U32},
         GenericArray,
     },
     Aead, Error, NewAead, Payload,
@@ -21,7 +21,7 @@ macro_rules! aes_gcm_impl {
         }
 
         impl Encryptor for $name {
-            type MinSize = U32;
+            type MinSize = U28;
         }
 
         impl NewAead for $name {
@@ -65,7 +65,7 @@ macro_rules! aes_gcm_impl {
             ) -> Result<Vec<u8>, Error> {
                 let payload = ciphertext.into();
 
-                if payload.msg.len() < Self::TagSize::to_usize() + Self::NonceSize::to_usize() {
+                if payload.msg.len() < Self::TagSize::to_usize() {
                     return Err(Error);
                 }
 
diff --git a/libursa/src/encryption/symm/chacha20poly1305.rs b/libursa/src/encryption/symm/chacha20poly1305.rs
index 999788c..1c59b9c 100644
--- a/libursa/src/encryption/symm/chacha20poly1305.rs
+++ b/libursa/src/encryption/symm/chacha20poly1305.rs
@@ -1,7 +1,7 @@
 use super::Encryptor;
 use aead::{
     generic_array::{
-        typenum::{U0, U12, U16, U32, U36},
+        typenum::{U0, U12, U16, U28, U32},
         GenericArray,
     },
     Aead, Error, NewAead, Payload,
@@ -17,7 +17,7 @@ pub struct ChaCha20Poly1305 {
 }
 
 impl Encryptor for ChaCha20Poly1305 {
-    type MinSize = U36;
+    type MinSize = U28;
 }
 
 impl NewAead for ChaCha20Poly1305 {
diff --git a/libursa/src/encryption/symm/chacha20poly1305_asm.rs b/libursa/src/encryption/symm/chacha20poly1305_asm.rs
index 5d9fdf0..ec0ce01 100644
--- a/libursa/src/encryption/symm/chacha20poly1305_asm.rs
+++ b/libursa/src/encryption/symm/chacha20poly1305_asm.rs
@@ -1,7 +1,7 @@
 use super::Encryptor;
 use aead::{
     generic_array::{
-        typenum::{Unsigned, U0, U12, U16, U32, U36},
+        typenum::{Unsigned, U0, U12, U16, U28, U32},
         GenericArray,
     },
     Aead, Error, NewAead, Payload,
@@ -25,7 +25,7 @@ pub struct ChaCha20Poly1305 {
 }
 
 impl Encryptor for ChaCha20Poly1305 {
-    type MinSize = U36;
+    type MinSize = U28;
 }
 
 impl NewAead for ChaCha20Poly1305 {
diff --git a/libursa/src/encryption/symm/xchacha20poly1305.rs b/libursa/src/encryption/symm/xchacha20poly1305.rs
index 930d224..a6dad06 100644
--- a/libursa/src/encryption/symm/xchacha20poly1305.rs
+++ b/libursa/src/encryption/symm/xchacha20poly1305.rs
@@ -1,7 +1,7 @@
 use super::Encryptor;
 use aead::{
     generic_array::{
-        typenum::{U0, U16, U24, U32, U48},
+        typenum::{U0, U16, U24, U32, U40},
         GenericArray,
     },
     Aead, Error, NewAead, Payload,
@@ -17,7 +17,7 @@ pub struct XChaCha20Poly1305 {
 }
 
 impl Encryptor for XChaCha20Poly1305 {
-    type MinSize = U48;
+    type MinSize = U40;
 }
 
 impl NewAead for XChaCha20Poly1305 {
diff --git a/libursa/src/encryption/symm/xchacha20poly1305_asm.rs b/libursa/src/encryption/symm/xchacha20poly1305_asm.rs
index 92576f0..7c6df03 100644
--- a/libursa/src/encryption/symm/xchacha20poly1305_asm.rs
+++ b/libursa/src/encryption/symm/xchacha20poly1305_asm.rs
@@ -1,7 +1,7 @@
 use super::Encryptor;
 use aead::{
     generic_array::{
-        typenum::{Unsigned, U0, U16, U24, U32, U48},
+        typenum::{Unsigned, U0, U16, U24, U32, U40},
         GenericArray,
     },
     Aead, Error, NewAead, Payload,
@@ -25,7 +25,7 @@ pub struct XChaCha20Poly1305 {
 }
 
 impl Encryptor for XChaCha20Poly1305 {
-    type MinSize = U48;
+    type MinSize = U40;
 }
 
 impl NewAead for XChaCha20Poly1305 {
-- 
2.43.0


From 6c674204b52e05a6079571b8a4db75b0c649952a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:43 +0000
Subject: [PATCH 25/85] fix: symm: keys and nonces of the wrong size are
 errors, not panics

---
 libursa/src/encryption/symm/mod.rs | 31 +++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/libursa/src/encryption/symm/mod.rs b/libursa/src/encryption/symm/mod.rs
index 0eda1e7..7ac0880 100644
--- a/libursa/src/encryption/symm/mod.rs
+++ b/libursa/src/encryption/symm/mod.rs
@@ -81,6 +81,11 @@ macro_rules! serialize_impl {
                         E: serde::de::Error,
                     {
                         let key = hex::decode(value).map_err(E::custom)?;
+                        if key.len()
+                            != <<$name as NewAead>::KeySize as aead::generic_array::typenum::Unsigned>::to_usize()
+                        {
+                            return Err(E::invalid_length(key.len(), &self));
+                        }
                         Ok($name::new(GenericArray::from_slice(key.as_slice())))
                     }
                 }
@@ -147,8 +152,12 @@ impl<E: Encryptor> SymmetricEncryptor<E> {
     }
 
     pub fn new_with_key<A: AsRef<[u8]>>(key: A) -> Result<Self, Error> {
+        let key = key.as_ref();
+        if key.len() != <E as NewAead>::KeySize::to_usize() {
+            return Err(Error);
+        }
         Ok(Self {
-            encryptor: <E as NewAead>::new(GenericArray::from_slice(key.as_ref())),
+            encryptor: <E as NewAead>::new(GenericArray::from_slice(key)),
         })
     }
 
@@ -165,7 +174,7 @@ impl<E: Encryptor> SymmetricEncryptor<E> {
         aad: A,
         plaintext: A,
     ) -> Result<Vec<u8>, Error> {
-        let nonce = GenericArray::from_slice(nonce.as_ref());
+        let nonce = to_nonce::<E>(nonce.as_ref())?;
         let payload = Payload {
             msg: plaintext.as_ref(),
             aad: aad.as_ref(),
@@ -192,7 +201,7 @@ impl<E: Encryptor> SymmetricEncryptor<E> {
         aad: A,
         ciphertext: A,
     ) -> Result<Vec<u8>, Error> {
-        let nonce = GenericArray::from_slice(nonce.as_ref());
+        let nonce = to_nonce::<E>(nonce.as_ref())?;
         let payload = Payload {
             msg: ciphertext.as_ref(),
             aad: aad.as_ref(),
@@ -319,9 +328,9 @@ impl<D: Encryptor> DynEncryptor for D {
     }
 
     fn encrypt(&self, nonce: &[u8], aad: &[u8], msg: &[u8]) -> Result<Vec<u8>, Error> {
-        let nonce = GenericArray::clone_from_slice(nonce);
+        let nonce = to_nonce::<D>(nonce)?;
         let payload = Payload { msg, aad };
-        self.encrypt(&nonce, payload)
+        self.encrypt(nonce, payload)
     }
 
     fn decrypt_easy(&self, aad: &[u8], ciphertext: &[u8]) -> Result<Vec<u8>, Error> {
@@ -329,9 +338,9 @@ impl<D: Encryptor> DynEncryptor for D {
     }
 
     fn decrypt(&self, nonce: &[u8], aad: &[u8], msg: &[u8]) -> Result<Vec<u8>, Error> {
-        let nonce = GenericArray::clone_from_slice(nonce);
+        let nonce = to_nonce::<D>(nonce)?;
         let payload = Payload { msg, aad };
-        self.decrypt(&nonce, payload)
+        self.decrypt(nonce, payload)
     }
 }
 
@@ -457,6 +466,14 @@ impl std::fmt::Display for EncryptorType {
     }
 }
 
+/// The nonce, if it has the size the cipher needs
+fn to_nonce<E: Aead>(nonce: &[u8]) -> Result<&GenericArray<u8, E::NonceSize>, Error> {
+    if nonce.len() != E::NonceSize::to_usize() {
+        return Err(Error);
+    }
+    Ok(GenericArray::from_slice(nonce))
+}
+
 fn read_buffer<I: Read>(buffer: &mut I) -> Result<Vec<u8>, Error> {
     let mut v = Vec::new();
     let bytes_read = buffer.read_to_end(&mut v).map_err(|_| Error)?;
-- 
2.43.0


From ec5bf4c6c246e1ecc50d180f76f22c71c70c293c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:12 +0000
Subject: [PATCH 26/85] fix: ed25519: a private key whose public half is not
 its own is refused

---
 libursa/src/signatures/ed25519.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/libursa/src/signatures/ed25519.rs b/libursa/src/signatures/ed25519.rs
index f113450..1ef67d0 100644
--- a/libursa/src/signatures/ed25519.rs
+++ b/libursa/src/signatures/ed25519.rs
@@ -106,6 +106,18 @@ impl Ed25519Sha512 {
     }
 }
 
+/// The keypair of a private key, which holds the secret followed by its public key.
+/// Signing with a public key other than the secret's own reveals the secret.
+fn load_keypair(sk: &PrivateKey) -> Result<Keypair, CryptoError> {
+    let kp = Keypair::from_bytes(&sk[..]).map_err(|e| CryptoError::KeyGenError(e.to_string()))?;
+    if PK::from(&kp.secret) != kp.public {
+        return Err(CryptoError::KeyGenError(
+            "The public key does not belong to the secret key".to_string(),
+        ));
+    }
+    Ok(kp)
+}
+
 impl SignatureScheme for Ed25519Sha512 {
     fn new() -> Self {
         Self
@@ -122,8 +134,7 @@ impl SignatureScheme for Ed25519Sha512 {
                     let mut rng = ChaChaRng::from_seed(*array_ref!(hash.as_slice(), 0, 32));
                     Keypair::generate(&mut rng)
                 }
-                KeyGenOption::FromSecretKey(ref s) => Keypair::from_bytes(&s[..])
-                    .map_err(|e| CryptoError::KeyGenError(e.to_string()))?,
+                KeyGenOption::FromSecretKey(ref s) => load_keypair(s)?,
             },
             None => {
                 let mut rng = OsRng::default();
@@ -136,8 +147,7 @@ impl SignatureScheme for Ed25519Sha512 {
         ))
     }
     fn sign(&self, message: &[u8], sk: &PrivateKey) -> Result<Vec<u8>, CryptoError> {
-        let kp =
-            Keypair::from_bytes(&sk[..]).map_err(|e| CryptoError::KeyGenError(e.to_string()))?;
+        let kp = load_keypair(sk)?;
         Ok(kp.sign(message).to_bytes().to_vec())
     }
     fn verify(
-- 
2.43.0


From 6bb09b4420053114eda12880657cd56ed3254807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:12 +0000
Subject: [PATCH 27/85] fix: secp256k1: a seed that is too short is an error,
 not a panic

---
 libursa/src/kex/secp256k1.rs        | 10 ++++++++++
 libursa/src/signatures/secp256k1.rs |  5 +++++
 2 files changed, 15 insertions(+)

diff --git a/libursa/src/kex/secp256k1.rs b/libursa/src/kex/secp256k1.rs
index 33105b5..331eefd 100644
--- a/libursa/src/kex/secp256k1.rs
+++ b/libursa/src/kex/secp256k1.rs
@@ -69,6 +69,11 @@ mod ecdh_secp256k1 {
             let sk = match option {
                 Some(mut o) => match o {
                     KeyGenOption::UseSeed(ref mut seed) => {
+                        if seed.len() < 32 {
+                            return Err(CryptoError::KeyGenError(
+                                "The seed must have at least 32 bytes".to_string(),
+                            ));
+                        }
                         let mut s = [0u8; PRIVATE_KEY_SIZE];
                         let mut rng = ChaChaRng::from_seed(*array_ref!(seed.as_slice(), 0, 32));
                         seed.zeroize();
@@ -150,6 +155,11 @@ mod ecdh_secp256k1 {
             match option {
                 Some(mut o) => match o {
                     KeyGenOption::UseSeed(ref mut seed) => {
+                        if seed.len() < 32 {
+                            return Err(CryptoError::KeyGenError(
+                                "The seed must have at least 32 bytes".to_string(),
+                            ));
+                        }
                         let mut rng =
                             ChaChaRng::from_seed(*array_ref!(seed.as_slice(), 0, PRIVATE_KEY_SIZE));
                         seed.zeroize();
diff --git a/libursa/src/signatures/secp256k1.rs b/libursa/src/signatures/secp256k1.rs
index e68d5ec..9241cdd 100644
--- a/libursa/src/signatures/secp256k1.rs
+++ b/libursa/src/signatures/secp256k1.rs
@@ -148,6 +148,11 @@ mod ecdsa_secp256k1 {
             let sk = match option {
                 Some(mut o) => match o {
                     KeyGenOption::UseSeed(ref mut seed) => {
+                        if seed.len() < 32 {
+                            return Err(CryptoError::KeyGenError(
+                                "The seed must have at least 32 bytes".to_string(),
+                            ));
+                        }
                         let mut s = [0u8; PRIVATE_KEY_SIZE];
                         let mut rng = ChaChaRng::from_seed(*array_ref!(seed.as_slice(), 0, 32));
                         seed.zeroize();
-- 
2.43.0


From 10c4a075e907854ab770e4fb5b58a7aab8827e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:13 +0000
Subject: [PATCH 28/85] fix: kex: a secp256k1 private key of the wrong size is
 an error

---
 libursa/src/kex/secp256k1.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/libursa/src/kex/secp256k1.rs b/libursa/src/kex/secp256k1.rs
index 331eefd..50d4f4d 100644
--- a/libursa/src/kex/secp256k1.rs
+++ b/libursa/src/kex/secp256k1.rs
@@ -168,7 +168,14 @@ mod ecdh_secp256k1 {
                         let d = D::digest(&sk[..]);
                         array_copy!(d.as_slice(), sk)
                     }
-                    KeyGenOption::FromSecretKey(ref s) => array_copy!(s, sk),
+                    KeyGenOption::FromSecretKey(ref s) => {
+                        if s.len() != PRIVATE_KEY_SIZE {
+                            return Err(CryptoError::ParseError(
+                                "The private key must have 32 bytes".to_string(),
+                            ));
+                        }
+                        array_copy!(s, sk)
+                    }
                 },
                 None => {
                     OsRng.fill_bytes(&mut sk);
@@ -193,6 +200,11 @@ mod ecdh_secp256k1 {
         where
             D: Digest<OutputSize = U32> + Default,
         {
+            if local_private_key.len() != PRIVATE_KEY_SIZE {
+                return Err(CryptoError::ParseError(
+                    "The private key must have 32 bytes".to_string(),
+                ));
+            }
             let sk = k256::SecretKey::from_bytes(&local_private_key)
                 .map_err(|e| CryptoError::ParseError(format!("{:?}", e)))?;
 
-- 
2.43.0


From 093334a9a1e80adcd7d696a815a79f3797df061c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:13 +0000
Subject: [PATCH 29/85] fix: kex: an x25519 key that is too short is an error,
 not a panic

---
 libursa/src/kex/x25519.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/libursa/src/kex/x25519.rs b/libursa/src/kex/x25519.rs
index 0ddd5ae..7384ad1 100644
--- a/libursa/src/kex/x25519.rs
+++ b/libursa/src/kex/x25519.rs
@@ -10,6 +10,16 @@ use CryptoError;
 
 pub struct X25519Sha256;
 
+/// The first 32 bytes are used (an ed25519 private key has 64)
+fn check_size<K: AsRef<[u8]>>(key: K) -> Result<(), CryptoError> {
+    if key.as_ref().len() < 32 {
+        return Err(CryptoError::ParseError(
+            "The key must have at least 32 bytes".to_string(),
+        ));
+    }
+    Ok(())
+}
+
 impl KeyExchangeScheme for X25519Sha256 {
     fn new() -> Self {
         Self
@@ -30,6 +40,7 @@ impl KeyExchangeScheme for X25519Sha256 {
                     (pk, sk)
                 }
                 KeyGenOption::FromSecretKey(ref s) => {
+                    check_size(s)?;
                     let sk = StaticSecret::from(*array_ref!(&s[..], 0, 32));
                     let pk = X25519PublicKey::from(&sk);
                     (pk, sk)
@@ -53,6 +64,8 @@ impl KeyExchangeScheme for X25519Sha256 {
         local_private_key: &PrivateKey,
         remote_public_key: &PublicKey,
     ) -> Result<SessionKey, CryptoError> {
+        check_size(local_private_key)?;
+        check_size(remote_public_key)?;
         let sk = StaticSecret::from(*array_ref!(&local_private_key[..], 0, 32));
         let pk = X25519PublicKey::from(*array_ref!(&remote_public_key[..], 0, 32));
         let shared_secret = sk.diffie_hellman(&pk);
-- 
2.43.0


From 93028cfd2bffea0bc0931c3e0515983d1ff56840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:13 +0000
Subject: [PATCH 30/85] fix: signatures: the public key of a malformed private
 key is an error, not a panic

---
 libursa/src/signatures/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libursa/src/signatures/mod.rs b/libursa/src/signatures/mod.rs
index 7676b68..423b546 100644
--- a/libursa/src/signatures/mod.rs
+++ b/libursa/src/signatures/mod.rs
@@ -76,8 +76,7 @@ impl<'a, 'b, T: 'a + SignatureScheme> Signer<'a, 'b, T> {
         let sk = PrivateKey(self.key[..].to_vec());
         let (pubk, _) = self
             .scheme
-            .keypair(Some(KeyGenOption::FromSecretKey(sk)))
-            .unwrap();
+            .keypair(Some(KeyGenOption::FromSecretKey(sk)))?;
         Ok(pubk)
     }
 }
-- 
2.43.0


From f52c342d9900caecb184442e6eafc34e8f27ab00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:13 +0000
Subject: [PATCH 31/85] fix: secp256k1: serializing the scheme does not recurse
 without end

---
 libursa/src/signatures/secp256k1.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libursa/src/signatures/secp256k1.rs b/libursa/src/signatures/secp256k1.rs
index 9241cdd..b4da82b 100644
--- a/libursa/src/signatures/secp256k1.rs
+++ b/libursa/src/signatures/secp256k1.rs
@@ -78,7 +78,7 @@ impl Serialize for EcdsaSecp256k1Sha256 {
     where
         S: Serializer,
     {
-        serializer.serialize_newtype_struct("EcdsaSecp256k1Sha256", &self)
+        serializer.serialize_newtype_struct("EcdsaSecp256k1Sha256", ALGORITHM_NAME)
     }
 }
 
-- 
2.43.0


From 302872069b7a89f64b74c9b45862b2fdef6c21ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:13 +0000
Subject: [PATCH 32/85] fix: shamir: no share is the secret itself, and an
 empty share is an error

---
 libursa/src/sharing/shamir.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libursa/src/sharing/shamir.rs b/libursa/src/sharing/shamir.rs
index ecd3570..11c7958 100644
--- a/libursa/src/sharing/shamir.rs
+++ b/libursa/src/sharing/shamir.rs
@@ -233,6 +233,11 @@ impl Share {
     /// Convert a share from bytes, assumes the last byte is the identifier
     pub fn from_bytes<B: AsRef<[u8]>>(data: B, modulus: &BigNumber) -> CryptoResult<Self> {
         let data = data.as_ref();
+        if data.is_empty() {
+            return Err(CryptoError::GeneralError(
+                "Share cannot be empty".to_string(),
+            ));
+        }
         let value = BigNumber::from_bytes(&data[..(data.len() - 1)])?.modulus(modulus, None)?;
         let identifier = data[data.len() - 1];
         Ok(Self { identifier, value })
@@ -283,6 +288,11 @@ pub fn split_secret<B: AsRef<[u8]>>(
             "field must be greater than 1".to_string(),
         ));
     }
+    if field <= &BigNumber::from_u32(total as usize)? {
+        return Err(CryptoError::GeneralError(
+            "field must be greater than the total".to_string(),
+        ));
+    }
     let element = Element {
         modulus: field.try_clone()?,
         value: BigNumber::from_bytes(secret)?,
-- 
2.43.0


From 6a92255725043582cf00881bbaeddd7dda3a5a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:13 +0000
Subject: [PATCH 33/85] fix: bls: nothing is signed under the neutral element

---
 libursa/src/bls/mod.rs   | 4 ++++
 libursa/src/pair/amcl.rs | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/libursa/src/bls/mod.rs b/libursa/src/bls/mod.rs
index fbc86a0..727cd0a 100644
--- a/libursa/src/bls/mod.rs
+++ b/libursa/src/bls/mod.rs
@@ -577,6 +577,10 @@ impl Bls {
     where
         T: Digest,
     {
+        // Under the neutral element the neutral signature would be valid for every message
+        if ver_key.is_inf()? {
+            return Ok(false);
+        }
         let h = Bls::_hash(message, hasher)?;
         // e(&signature, &gen.point) == e(&h, &ver_key) => 1 == e(&h, &ver_key)*e(&signature, &gen.point)^-1 == e(&h, &ver_key)*e(&signature, -&gen.point)
         Pair::pair2(&signature, &gen.point.neg()?, &h, &ver_key)?.is_unity()
diff --git a/libursa/src/pair/amcl.rs b/libursa/src/pair/amcl.rs
index 0fa0b3b..77c2cd0 100644
--- a/libursa/src/pair/amcl.rs
+++ b/libursa/src/pair/amcl.rs
@@ -302,6 +302,11 @@ impl PointG2 {
         Ok(PointG2 { point: r })
     }
 
+    /// Checks infinity
+    pub fn is_inf(&self) -> UrsaCryptoResult<bool> {
+        Ok(self.point.is_infinity())
+    }
+
     pub fn neg(&self) -> UrsaCryptoResult<PointG2> {
         let mut r = self.point;
         r.neg();
-- 
2.43.0


From cd98c881ff34a49a6cc6aae46821586afb5d1ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:13 +0000
Subject: [PATCH 34/85] fix: signatures: nothing is signed under the neutral
 element of BLS

---
 libursa/src/signatures/bls.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/libursa/src/signatures/bls.rs b/libursa/src/signatures/bls.rs
index 7c73c7f..fcfe465 100644
--- a/libursa/src/signatures/bls.rs
+++ b/libursa/src/signatures/bls.rs
@@ -290,7 +290,7 @@ macro_rules! bls_impl {
                 g: &Generator,
             ) -> bool {
                 let hash = hash_msg(message, context);
-                $ate_2_pairing_is_one(&g, &self.0, &pk.0, &hash)
+                !pk.0.is_identity() && $ate_2_pairing_is_one(&g, &self.0, &pk.0, &hash)
             }
 
             // Caller should aggregate all signatures into `self` by using `combine`.
@@ -303,6 +303,9 @@ macro_rules! bls_impl {
                 context: Option<&'static [u8]>,
                 g: &Generator,
             ) -> bool {
+                if inputs.is_empty() || inputs.iter().any(|(_, pk)| pk.0.is_identity()) {
+                    return false;
+                }
                 let mut msg_check = ::std::collections::HashSet::new();
                 let mut pairs = Vec::new();
                 for (msg, pk) in inputs {
@@ -327,6 +330,9 @@ macro_rules! bls_impl {
                 // To avoid rogue key attacks, you must use proof of possession or `AggregateSignature::batch_verify`
                 // This function just avoids checking for distinct messages and
                 // uses batch verification as described in the end of section 3.1 from https://eprint.iacr.org/2018/483
+                if inputs.iter().any(|(_, _, apk)| apk.0.is_identity()) {
+                    return false;
+                }
                 let mut pairs = Vec::new();
                 let mut sig = SignatureGroup::identity();
                 for (msg, asg, apk) in inputs {
@@ -385,7 +391,7 @@ macro_rules! bls_impl {
                 g: &Generator,
             ) -> bool {
                 let hash = hash_key(pk, context);
-                $ate_2_pairing_is_one(&g, &self.0, &pk.0, &hash)
+                !pk.0.is_identity() && $ate_2_pairing_is_one(&g, &self.0, &pk.0, &hash)
             }
         }
 
@@ -414,7 +420,7 @@ macro_rules! bls_impl {
                 g: &Generator,
             ) -> bool {
                 let hash = hash_msg(message, context);
-                $ate_2_pairing_is_one(&g, &self.0, &pk.0, &hash)
+                !pk.0.is_identity() && $ate_2_pairing_is_one(&g, &self.0, &pk.0, &hash)
             }
 
             // Verify without rogue key mitigation. Assumes caller has handled
@@ -430,7 +436,7 @@ macro_rules! bls_impl {
             ) -> bool {
                 let apk = pks.iter().fold(Generator::identity(), |a, p| a + &p.0);
                 let hash = hash_msg(message, context);
-                $ate_2_pairing_is_one(&g, &self.0, &apk, &hash)
+                !apk.is_identity() && $ate_2_pairing_is_one(&g, &self.0, &apk, &hash)
             }
 
             /// This should be used to verify quickly multiple BLS aggregated signatures by batching
@@ -446,6 +452,9 @@ macro_rules! bls_impl {
             ) -> bool {
                 // To combat the rogue key attack and avoid checking for distinct messages
                 // use batch verification as described in the end of section 3.1 from https://eprint.iacr.org/2018/483
+                if inputs.iter().any(|(_, _, apk)| apk.0.is_identity()) {
+                    return false;
+                }
                 let mut pairs = Vec::new();
                 let mut sig = SignatureGroup::identity();
                 for (msg, asg, apk) in inputs {
-- 
2.43.0


From 0fd97ada8bf1460d99eb7fe8adaa1b573831db05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:31 +0000
Subject: [PATCH 35/85] fix: signatures: BLS bytes shorter than the form they
 announce are an error, not a panic

---
 libursa/src/signatures/bls.rs | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/libursa/src/signatures/bls.rs b/libursa/src/signatures/bls.rs
index fcfe465..e66391d 100644
--- a/libursa/src/signatures/bls.rs
+++ b/libursa/src/signatures/bls.rs
@@ -23,6 +23,17 @@ pub const PRIVATE_KEY_SIZE: usize = MODBYTES;
 /// instead of wrapping it as a private field
 pub type PrivateKey = FieldElement;
 
+/// Bytes that announce the uncompressed form have its length
+fn group_from_bytes<G: GroupElement>(bytes: &[u8], size: usize) -> Result<G, CryptoError> {
+    if bytes.len() != size && bytes.first() == Some(&0x04) {
+        return Err(CryptoError::ParseError(format!(
+            "Incorrect number of bytes for a group element: {}",
+            bytes.len()
+        )));
+    }
+    G::from_bytes(bytes).map_err(|e| CryptoError::ParseError(format!("{:?}", e)))
+}
+
 macro_rules! bls_impl {
     ($pk_size:expr, $sig_size:expr, $pk_group:ident, $sig_group:ident, $ate_2_pairing_is_one:ident, $set_pairs:ident) => {
         pub const PUBLIC_KEY_SIZE: usize = $pk_size;
@@ -175,9 +186,7 @@ macro_rules! bls_impl {
             }
 
             pub fn from_bytes(bytes: &[u8]) -> Result<Self, CryptoError> {
-                Ok(PublicKey(Generator::from_bytes(bytes).map_err(|e| {
-                    CryptoError::ParseError(format!("{:?}", e))
-                })?))
+                Ok(PublicKey(group_from_bytes::<Generator>(bytes, PUBLIC_KEY_SIZE)?))
             }
         }
 
@@ -218,9 +227,7 @@ macro_rules! bls_impl {
             }
 
             pub fn from_bytes(bytes: &[u8]) -> Result<Self, CryptoError> {
-                Ok(AggregatedPublicKey(Generator::from_bytes(bytes).map_err(
-                    |e| CryptoError::ParseError(format!("{:?}", e)),
-                )?))
+                Ok(AggregatedPublicKey(group_from_bytes::<Generator>(bytes, PUBLIC_KEY_SIZE)?))
             }
         }
 
@@ -353,9 +360,7 @@ macro_rules! bls_impl {
             }
 
             pub fn from_bytes(bytes: &[u8]) -> Result<Self, CryptoError> {
-                Ok(Signature(SignatureGroup::from_bytes(bytes).map_err(
-                    |e| CryptoError::ParseError(format!("{:?}", e)),
-                )?))
+                Ok(Signature(group_from_bytes::<SignatureGroup>(bytes, SIGNATURE_SIZE)?))
             }
         }
 
@@ -378,10 +383,7 @@ macro_rules! bls_impl {
             }
 
             pub fn from_bytes(bytes: &[u8]) -> Result<Self, CryptoError> {
-                Ok(ProofOfPossession(
-                    SignatureGroup::from_bytes(bytes)
-                        .map_err(|e| CryptoError::ParseError(format!("{:?}", e)))?,
-                ))
+                Ok(ProofOfPossession(group_from_bytes::<SignatureGroup>(bytes, SIGNATURE_SIZE)?))
             }
 
             pub fn verify(
@@ -475,10 +477,7 @@ macro_rules! bls_impl {
             }
 
             pub fn from_bytes(bytes: &[u8]) -> Result<Self, CryptoError> {
-                Ok(AggregatedSignature(
-                    SignatureGroup::from_bytes(bytes)
-                        .map_err(|e| CryptoError::ParseError(format!("{:?}", e)))?,
-                ))
+                Ok(AggregatedSignature(group_from_bytes::<SignatureGroup>(bytes, SIGNATURE_SIZE)?))
             }
         }
     };
-- 
2.43.0


From fd2b5eb4e7104bfc0a60b09228c3daa812133f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:58 +0000
Subject: [PATCH 36/85] fix: bbs: a proof reveals exactly the messages that
 were requested

---
 libzmix/bbs/src/verifier.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/libzmix/bbs/src/verifier.rs b/libzmix/bbs/src/verifier.rs
index 03d6325..3d61c26 100644
--- a/libzmix/bbs/src/verifier.rs
+++ b/libzmix/bbs/src/verifier.rs
@@ -46,6 +46,17 @@ impl Verifier {
         signature_proof: &SignatureProof,
         nonce: &ProofNonce,
     ) -> Result<Vec<SignatureMessage>, BBSError> {
+        // The messages revealed must be those which were requested
+        if !signature_proof
+            .revealed_messages
+            .keys()
+            .eq(proof_request.revealed_messages.iter())
+        {
+            return Err(BBSErrorKind::InvalidProof {
+                status: PoKOfSignatureProofStatus::BadRevealedMessage,
+            }
+            .into());
+        }
         let mut challenge_bytes = signature_proof.proof.get_bytes_for_challenge(
             proof_request.revealed_messages.clone(),
             &proof_request.verification_key,
-- 
2.43.0


From 0562ac40e7be95ebfa145756120e78430d4eab6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:58 +0000
Subject: [PATCH 37/85] fix: bbs: an index without a generator is an error, not
 a panic

---
 libzmix/bbs/src/prover.rs    | 2 +-
 libzmix/bbs/src/signature.rs | 7 +++++++
 libzmix/bbs/src/verifier.rs  | 2 +-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/libzmix/bbs/src/prover.rs b/libzmix/bbs/src/prover.rs
index 23c3f62..ace9a9d 100644
--- a/libzmix/bbs/src/prover.rs
+++ b/libzmix/bbs/src/prover.rs
@@ -46,7 +46,7 @@ impl Prover {
         let mut secrets = Vec::new();
         secrets.push(SignatureMessage(blinding_factor.0));
         for (i, m) in messages {
-            if *i > verkey.h.len() {
+            if *i >= verkey.h.len() {
                 return Err(BBSErrorKind::PublicKeyGeneratorMessageCountMismatch(
                     *i,
                     verkey.h.len(),
diff --git a/libzmix/bbs/src/signature.rs b/libzmix/bbs/src/signature.rs
index 3b130d2..3db76f2 100644
--- a/libzmix/bbs/src/signature.rs
+++ b/libzmix/bbs/src/signature.rs
@@ -160,6 +160,13 @@ impl BlindSignature {
             verkey.message_count(),
             messages.len()
         );
+        if let Some(i) = messages.keys().find(|i| **i >= verkey.message_count()) {
+            return Err(BBSErrorKind::PublicKeyGeneratorMessageCountMismatch(
+                *i,
+                verkey.message_count(),
+            )
+            .into());
+        }
         signkey.validate()?;
         verkey.validate()?;
         let e = rand_non_zero_fr();
diff --git a/libzmix/bbs/src/verifier.rs b/libzmix/bbs/src/verifier.rs
index 3d61c26..21ade60 100644
--- a/libzmix/bbs/src/verifier.rs
+++ b/libzmix/bbs/src/verifier.rs
@@ -26,7 +26,7 @@ impl Verifier {
             .copied()
             .collect::<BTreeSet<usize>>();
         for i in &revealed_messages {
-            if *i > verkey.h.len() {
+            if *i >= verkey.h.len() {
                 return Err(BBSErrorKind::PublicKeyGeneratorMessageCountMismatch(
                     *i,
                     verkey.h.len(),
-- 
2.43.0


From f8d7da49d7cdd1ac0542deee60d6b50198493c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:58 +0000
Subject: [PATCH 38/85] fix: bbs: a proof without responses is an error, not a
 panic

---
 libzmix/bbs/src/pok_sig.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libzmix/bbs/src/pok_sig.rs b/libzmix/bbs/src/pok_sig.rs
index d69aef2..a98cbf6 100644
--- a/libzmix/bbs/src/pok_sig.rs
+++ b/libzmix/bbs/src/pok_sig.rs
@@ -325,12 +325,12 @@ impl PoKOfSignatureProof {
     /// Used when comparing message equality
     pub fn get_resp_for_message(&self, msg_idx: usize) -> Result<SignatureMessage, BBSError> {
         // 2 elements in self.proof_vc_2.responses are reserved for `&signature.e` and `r2`
-        if msg_idx >= (self.proof_vc_2.responses.len() - 2) {
+        if msg_idx >= self.proof_vc_2.responses.len().saturating_sub(2) {
             return Err(BBSError::from_kind(BBSErrorKind::GeneralError {
                 msg: format!(
                     "Message index was given {} but should be less than {}",
                     msg_idx,
-                    self.proof_vc_2.responses.len() - 2
+                    self.proof_vc_2.responses.len().saturating_sub(2)
                 ),
             }));
         }
-- 
2.43.0


From bf7c728567c3e800d01b72ec9404aaf5635b91c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:58 +0000
Subject: [PATCH 39/85] fix: bbs: malformed bytes are errors, not panics

---
 libzmix/bbs/src/keys.rs    |  7 ++++++-
 libzmix/bbs/src/lib.rs     | 18 +++++++++++++++++-
 libzmix/bbs/src/pok_sig.rs | 10 ++++++++--
 3 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/libzmix/bbs/src/keys.rs b/libzmix/bbs/src/keys.rs
index 9892628..17863f6 100644
--- a/libzmix/bbs/src/keys.rs
+++ b/libzmix/bbs/src/keys.rs
@@ -124,7 +124,9 @@ impl PublicKey {
         g1_size: usize,
         compressed: bool,
     ) -> Result<Self, BBSError> {
-        if (data.len() - 4) % g1_size != 0 {
+        // w is twice as long as an element of G1, h0 is one
+        let min_len = 3 * g1_size + 4;
+        if data.len() < min_len || (data.len() - 4) % g1_size != 0 {
             return Err(BBSErrorKind::MalformedPublicKey.into());
         }
         let mut c = Cursor::new(data);
@@ -135,6 +137,9 @@ impl PublicKey {
         c.read_exact(&mut h_bytes).unwrap();
 
         let h_size = u32::from_be_bytes(h_bytes) as usize;
+        if h_size > (data.len() - min_len) / g1_size {
+            return Err(BBSErrorKind::MalformedPublicKey.into());
+        }
         let mut h = Vec::with_capacity(h_size);
         for _ in 0..h_size {
             let p = GeneratorG1(G1::deserialize(&mut c, compressed)?);
diff --git a/libzmix/bbs/src/lib.rs b/libzmix/bbs/src/lib.rs
index b18381e..5fd91a0 100644
--- a/libzmix/bbs/src/lib.rs
+++ b/libzmix/bbs/src/lib.rs
@@ -553,8 +553,17 @@ impl ProofRequest {
         }
         let bitvector_len = u32::from_be_bytes(*array_ref![data, 0, 4]) as usize;
         let offset = 4 + bitvector_len;
+        if data.len() < offset {
+            return Err(BBSErrorKind::InvalidNumberOfBytes(offset, data.len()).into());
+        }
         let revealed_messages = bitvector_to_revealed(&data[4..offset]);
         let verification_key = PublicKey::from_bytes(&data[offset..], g1_size, compressed)?;
+        let message_count = verification_key.message_count();
+        if let Some(i) = revealed_messages.iter().find(|i| **i >= message_count) {
+            return Err(
+                BBSErrorKind::PublicKeyGeneratorMessageCountMismatch(*i, message_count).into(),
+            );
+        }
         Ok(Self {
             revealed_messages,
             verification_key,
@@ -647,12 +656,19 @@ impl SignatureProof {
         }
 
         let proof_len = u32::from_be_bytes(*array_ref![data, 0, 4]) as usize + 4;
+        if data.len() < proof_len + 4 {
+            return Err(BBSErrorKind::InvalidNumberOfBytes(proof_len + 4, data.len()).into());
+        }
         let proof = PoKOfSignatureProof::from_bytes(&data[4..proof_len], g1_size, compressed)?;
 
         let mut offset = proof_len;
         let revealed_messages_len = u32::from_be_bytes(*array_ref![data, offset, 4]) as usize;
         offset += 4;
         let mut end = offset + 4;
+        let min_len = offset + revealed_messages_len * (4 + FR_COMPRESSED_SIZE);
+        if data.len() < min_len {
+            return Err(BBSErrorKind::InvalidNumberOfBytes(min_len, data.len()).into());
+        }
 
         let mut revealed_messages = BTreeMap::new();
         for _ in 0..revealed_messages_len {
@@ -661,7 +677,7 @@ impl SignatureProof {
             offset = end;
             end = offset + FR_COMPRESSED_SIZE;
 
-            let m = SignatureMessage::from(array_ref![data, offset, FR_COMPRESSED_SIZE]);
+            let m = SignatureMessage::try_from(&data[offset..end])?;
 
             offset = end;
             end = offset + 4;
diff --git a/libzmix/bbs/src/pok_sig.rs b/libzmix/bbs/src/pok_sig.rs
index a98cbf6..8da00ef 100644
--- a/libzmix/bbs/src/pok_sig.rs
+++ b/libzmix/bbs/src/pok_sig.rs
@@ -450,9 +450,10 @@ impl PoKOfSignatureProof {
         g1_size: usize,
         compressed: bool,
     ) -> Result<Self, BBSError> {
-        if data.len() < g1_size * 3 {
+        let min_len = g1_size * 3 + 4;
+        if data.len() < min_len {
             return Err(BBSError::from_kind(BBSErrorKind::PoKVCError {
-                msg: format!("Invalid proof bytes. Expected {}", g1_size * 3),
+                msg: format!("Invalid proof bytes. Expected {}", min_len),
             }));
         }
         let mut c = Cursor::new(data);
@@ -474,6 +475,11 @@ impl PoKOfSignatureProof {
 
         offset = end;
         end = offset + proof1_bytes;
+        if data.len() < end {
+            return Err(BBSError::from_kind(BBSErrorKind::PoKVCError {
+                msg: format!("Invalid proof bytes. Expected {}", end),
+            }));
+        }
         let proof_vc_1 = ProofG1::from_bytes(&data[offset..end], g1_size, compressed)?;
 
         let proof_vc_2 = ProofG1::from_bytes(&data[end..], g1_size, compressed)?;
-- 
2.43.0


From 34eb3b8f6018e4f760a850702d30e3a964ce4e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:58 +0000
Subject: [PATCH 40/85] fix: bbs: what was serialized to JSON can be
 deserialized

---
 libzmix/bbs/src/macros.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/libzmix/bbs/src/macros.rs b/libzmix/bbs/src/macros.rs
index d15354a..e3cad47 100644
--- a/libzmix/bbs/src/macros.rs
+++ b/libzmix/bbs/src/macros.rs
@@ -218,6 +218,19 @@ macro_rules! serdes_impl {
                             DError::invalid_value(serde::de::Unexpected::Bytes(value), &self)
                         })
                     }
+
+                    // Formats without byte arrays, like JSON, write a sequence of numbers
+                    fn visit_seq<A>(self, mut seq: A) -> Result<$name, A::Error>
+                    where
+                        A: serde::de::SeqAccess<'a>,
+                    {
+                        let mut value = Vec::new();
+                        while let Some(b) = seq.next_element::<u8>()? {
+                            value.push(b);
+                        }
+                        $name::try_from(value.as_slice())
+                            .map_err(|_| DError::custom("invalid bytes"))
+                    }
                 }
 
                 deserializer.deserialize_bytes(DeserializeVisitor)
-- 
2.43.0


From c2d7e72ac16629b77bd9839cf7090804ee30a45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:49 +0000
Subject: [PATCH 41/85] fix: bulletproofs: an inner product proof of the wrong
 length is an error, not a panic

---
 libzmix/bulletproofs_amcl/src/ipp.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libzmix/bulletproofs_amcl/src/ipp.rs b/libzmix/bulletproofs_amcl/src/ipp.rs
index a5fd701..904338a 100644
--- a/libzmix/bulletproofs_amcl/src/ipp.rs
+++ b/libzmix/bulletproofs_amcl/src/ipp.rs
@@ -225,7 +225,10 @@ impl IPP {
         // The prover does not have access to all the challenges in the beginning but the verifier does.
         // The verifier uses all the challenges to compute scalars such that it can efficiently compute
         // the final g, h, L^{x^2}, L^{x^-2}
-        let (x_sq, x_inv_sq, s) = Self::verification_scalars(L_vec, R_vec, n, transcript).unwrap();
+        if G_vec.len() != n || H_vec.len() != n || G_factors.len() != n || H_factors.len() != n {
+            return Err(BulletproofErrorKind::IPPVerificationError.into());
+        }
+        let (x_sq, x_inv_sq, s) = Self::verification_scalars(L_vec, R_vec, n, transcript)?;
 
         let g_times_a_times_s = G_factors
             .iter()
@@ -283,8 +286,8 @@ impl IPP {
             // and this check prevents overflow in 1<<lg_n below.
             return Err(BulletproofErrorKind::IPPVerificationError.into());
         }
-        if n != (1 << lg_n) {
-            // n is not a power of 2
+        if n != (1 << lg_n) || R_vec.len() != lg_n {
+            // n is not a power of 2, or the proof is not for vectors of n elements
             return Err(BulletproofErrorKind::IPPVerificationError.into());
         }
 
-- 
2.43.0


From b0f8c1464a84c1870f6377d524c650b1359bd6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:36 +0000
Subject: [PATCH 42/85] fix: bulletproofs: the index of a challenge is computed
 without rounding

---
 libzmix/bulletproofs_amcl/src/ipp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libzmix/bulletproofs_amcl/src/ipp.rs b/libzmix/bulletproofs_amcl/src/ipp.rs
index 904338a..d7d8ded 100644
--- a/libzmix/bulletproofs_amcl/src/ipp.rs
+++ b/libzmix/bulletproofs_amcl/src/ipp.rs
@@ -330,7 +330,7 @@ impl IPP {
         s.push(product_chal_inv);
         for i in 1..n {
             // From "Computing scalars" in section 6.2 of the paper
-            let lg_i = (i as f32).log2() as usize;
+            let lg_i = (0usize.leading_zeros() - 1 - i.leading_zeros()) as usize;
             let k = 1 << lg_i;
             // The challenges are stored in "creation order" as [x_k,...,x_1],
             // so x_{lg(i)+1} is indexed by (lg_n-1) - lg_i. Choosing challenges_sq since there is
-- 
2.43.0


From e95628d07e304d03c5a294db5b0b97c7cc1150d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:54 +0000
Subject: [PATCH 43/85] fix: bulletproofs: too few generators of the second
 vector are an error, not a panic

---
 libzmix/bulletproofs_amcl/src/r1cs/prover.rs   | 9 +++++----
 libzmix/bulletproofs_amcl/src/r1cs/verifier.rs | 5 +++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/libzmix/bulletproofs_amcl/src/r1cs/prover.rs b/libzmix/bulletproofs_amcl/src/r1cs/prover.rs
index 183493f..7197d87 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/prover.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/prover.rs
@@ -335,9 +335,10 @@ impl<'a, 'b> Prover<'a, 'b> {
         // Commit to the first-phase low-level witness variables.
         let n1 = self.a_L.len();
 
-        if G.len() < n1 {
+        let gens_len = G.len().min(H.len());
+        if gens_len < n1 {
             return Err(R1CSErrorKind::InvalidGeneratorsLength {
-                length: G.len(),
+                length: gens_len,
                 expected: n1,
             }
             .into());
@@ -388,9 +389,9 @@ impl<'a, 'b> Prover<'a, 'b> {
         let padded_n = n.next_power_of_two();
         let pad = padded_n - n;
 
-        if G.len() < padded_n {
+        if gens_len < padded_n {
             return Err(R1CSErrorKind::InvalidGeneratorsLength {
-                length: G.len(),
+                length: gens_len,
                 expected: padded_n,
             }
             .into());
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/verifier.rs b/libzmix/bulletproofs_amcl/src/r1cs/verifier.rs
index bdd342b..0c700fe 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/verifier.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/verifier.rs
@@ -301,9 +301,10 @@ impl<'a> Verifier<'a> {
 
         use std::iter;
 
-        if G.len() < padded_n {
+        let gens_len = G.len().min(H.len());
+        if gens_len < padded_n {
             return Err(R1CSErrorKind::InvalidGeneratorsLength {
-                length: G.len(),
+                length: gens_len,
                 expected: padded_n,
             }
             .into());
-- 
2.43.0


From 4fab2f8aee1ae7db78cc0fda23506489bf32d3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:51 +0000
Subject: [PATCH 44/85] fix: bulletproofs: the toggles of a set membership
 proof are the committed ones

---
 .../bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs    | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
index 52fe0a6..b12e8c7 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
@@ -58,6 +58,8 @@ pub fn vector_product_gadget<CS: ConstraintSystem>(
                 .map(|bit| (bit.clone(), items[i].into())),
         )?;
         constrain_lc_with_scalar::<CS>(cs, item_var.into(), &items[i].into());
+        // The bit is the committed one
+        cs.constrain(bit_var - toggles[i].variable);
 
         // o2 = bit_var * value
         let (_, _, o2) = cs.multiply(bit_var.into(), value.variable.into());
-- 
2.43.0


From 4e9d8f3fe63b9beff31e8c04e1e93bcca120a713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:51 +0000
Subject: [PATCH 45/85] fix: bulletproofs: too few commitments are an error,
 not a panic

---
 libzmix/bulletproofs_amcl/src/errors.rs         | 17 +++++++++++++++++
 .../src/r1cs/gadgets/bound_check.rs             |  2 ++
 .../bulletproofs_amcl/src/r1cs/gadgets/mimc.rs  |  2 ++
 .../src/r1cs/gadgets/non_zero.rs                |  2 ++
 .../src/r1cs/gadgets/poseidon_hash.rs           |  6 ++++++
 .../src/r1cs/gadgets/set_membership.rs          |  1 +
 .../src/r1cs/gadgets/set_membership_alt.rs      |  1 +
 .../src/r1cs/gadgets/set_non_membership.rs      |  1 +
 8 files changed, 32 insertions(+)

diff --git a/libzmix/bulletproofs_amcl/src/errors.rs b/libzmix/bulletproofs_amcl/src/errors.rs
index aa47636..99b78b9 100644
--- a/libzmix/bulletproofs_amcl/src/errors.rs
+++ b/libzmix/bulletproofs_amcl/src/errors.rs
@@ -214,6 +214,23 @@ macro_rules! check_for_blindings_or_rng {
     }};
 }
 
+#[macro_export]
+macro_rules! check_for_commitments_length {
+    ( $commitments:expr, $expected_length:expr ) => {{
+        if $commitments.len() < $expected_length {
+            Err(R1CSError::from(R1CSErrorKind::GadgetError {
+                description: format!(
+                    "Expected {} commitments but found {}",
+                    $expected_length,
+                    $commitments.len()
+                ),
+            }))
+        } else {
+            Ok(())
+        }
+    }};
+}
+
 #[macro_export]
 macro_rules! check_for_input_and_blindings_length {
     ( $input:expr, $blindings:expr, $expected_length:expr ) => {{
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs
index 9ed8056..1c48f46 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs
@@ -100,6 +100,8 @@ pub fn verify_bounded_num(
     mut commitments: Vec<G1>,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, 3)?;
+
     let var_v = verifier.commit(commitments.remove(0));
     let quantity_v = AllocatedQuantity {
         variable: var_v,
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/mimc.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/mimc.rs
index 3723081..7fbcb03 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/mimc.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/mimc.rs
@@ -43,6 +43,8 @@ pub fn verify_mimc_preimage(
     mut commitments: Vec<G1>,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, 2)?;
+
     let var_l = verifier.commit(commitments.remove(0));
     let var_r = verifier.commit(commitments.remove(0));
 
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/non_zero.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/non_zero.rs
index 234321d..062526d 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/non_zero.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/non_zero.rs
@@ -37,6 +37,8 @@ pub fn verify_non_zero_val(
     mut commitments: Vec<G1>,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, 2)?;
+
     let var_val = verifier.commit(commitments.remove(0));
 
     let var_val_inv = verifier.commit(commitments.remove(0));
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/poseidon_hash.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/poseidon_hash.rs
index a7aa0cc..0fe69cd 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/poseidon_hash.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/poseidon_hash.rs
@@ -93,6 +93,8 @@ pub fn verify_knowledge_of_preimage_of_Poseidon_2(
     h: &G1,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, 2)?;
+
     let lv = verifier.commit(commitments.remove(0));
     let rv = verifier.commit(commitments.remove(0));
 
@@ -236,6 +238,8 @@ pub fn verify_knowledge_of_preimage_of_Poseidon_4(
     h: &G1,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, 4)?;
+
     let mut allocs = vec![];
 
     for _ in 0..4 {
@@ -389,6 +393,8 @@ pub fn verify_knowledge_of_preimage_of_Poseidon_8(
     h: &G1,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, 8)?;
+
     let mut vars = vec![];
 
     for _ in 0..8 {
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership.rs
index c5207d3..8eeb399 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership.rs
@@ -82,6 +82,7 @@ pub fn verify_set_membership(
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
     let set_length = set.len();
+    check_for_commitments_length!(commitments, set_length + 1)?;
 
     let mut diff_vars = vec![];
 
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
index b12e8c7..27291f2 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
@@ -136,6 +136,7 @@ pub fn verify_set_membership_alt(
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
     let set_length = set.len();
+    check_for_commitments_length!(commitments, set_length + 1)?;
 
     let mut bit_vars = vec![];
     let mut bit_allocs = vec![];
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_non_membership.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_non_membership.rs
index d14ebf3..b7731ff 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_non_membership.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_non_membership.rs
@@ -83,6 +83,7 @@ pub fn verify_set_non_membership(
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
     let set_length = set.len();
+    check_for_commitments_length!(commitments, 2 * set_length + 1)?;
 
     let mut diff_vars = vec![];
     let mut diff_inv_vars = vec![];
-- 
2.43.0


From cfb377a630b6c84ccb5f50d3f4c38e11cdd56aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:51 +0000
Subject: [PATCH 46/85] fix: bulletproofs: a value out of bounds is an error,
 not an overflow

---
 .../src/r1cs/gadgets/bound_check.rs                 | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs
index 1c48f46..3b9c349 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs
@@ -21,6 +21,13 @@ pub fn bound_check_gadget<CS: ConstraintSystem>(
     min: u64,
     n: usize,
 ) -> Result<(), R1CSError> {
+    if max < min {
+        return Err(R1CSErrorKind::GadgetError {
+            description: format!("The upper bound {} is below the lower bound {}", max, min),
+        }
+        .into());
+    }
+
     // a = v - min
     // b = max - v
     // a + b = max - min
@@ -51,6 +58,12 @@ pub fn prove_bounded_num<R: Rng + CryptoRng>(
 ) -> Result<Vec<G1>, R1CSError> {
     check_for_blindings_or_rng!(blinding, rng)?;
 
+    if val < lower || val > upper {
+        return Err(R1CSErrorKind::GadgetError {
+            description: format!("The value is not in [{}, {}]", lower, upper),
+        }
+        .into());
+    }
     let a = val - lower;
     let b = upper - val;
 
-- 
2.43.0


From 081815605bd758ca19473c620399bb368974a192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:59 +0000
Subject: [PATCH 47/85] fix: bulletproofs: 64-bit numbers above 2^58 become the
 field elements they stand for

---
 .../src/r1cs/gadgets/bound_check.rs           | 19 ++++++++++---------
 .../gadgets/helper_constraints/vector_sum.rs  |  3 ++-
 .../src/r1cs/gadgets/set_membership_alt.rs    |  9 +++++----
 libzmix/bulletproofs_amcl/src/utils/mod.rs    |  8 ++++++++
 4 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs
index 3b9c349..e6c3c62 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs
@@ -3,6 +3,7 @@ use super::helper_constraints::positive_no::positive_no_gadget;
 use crate::errors::{R1CSError, R1CSErrorKind};
 use crate::r1cs::linear_combination::AllocatedQuantity;
 use crate::r1cs::{ConstraintSystem, LinearCombination, Prover, R1CSProof, Verifier};
+use crate::utils::field_elem_from_u64;
 use amcl_wrapper::field_elem::FieldElement;
 use amcl_wrapper::group_elem_g1::{G1Vector, G1};
 use merlin::Transcript;
@@ -32,12 +33,12 @@ pub fn bound_check_gadget<CS: ConstraintSystem>(
     // b = max - v
     // a + b = max - min
 
-    cs.constrain(v.variable - LinearCombination::from(FieldElement::from(min)) - a.variable);
+    cs.constrain(v.variable - LinearCombination::from(field_elem_from_u64(min)) - a.variable);
 
-    cs.constrain(LinearCombination::from(FieldElement::from(max)) - v.variable - b.variable);
+    cs.constrain(LinearCombination::from(field_elem_from_u64(max)) - v.variable - b.variable);
 
     // Constrain a + b to be same as max - min.
-    constrain_lc_with_scalar::<CS>(cs, a.variable + b.variable, &FieldElement::from(max - min));
+    constrain_lc_with_scalar::<CS>(cs, a.variable + b.variable, &field_elem_from_u64(max - min));
 
     // Constrain a in [0, 2^n)
     positive_no_gadget(cs, a, n)?;
@@ -70,26 +71,26 @@ pub fn prove_bounded_num<R: Rng + CryptoRng>(
     let mut comms = vec![];
 
     let (com_v, var_v) = prover.commit(
-        val.into(),
+        field_elem_from_u64(val),
         blinding.unwrap_or_else(|| FieldElement::random_using_rng(rng.unwrap())),
     );
     let quantity_v = AllocatedQuantity {
         variable: var_v,
-        assignment: Some(val.into()),
+        assignment: Some(field_elem_from_u64(val)),
     };
     comms.push(com_v);
 
-    let (com_a, var_a) = prover.commit(a.into(), FieldElement::random());
+    let (com_a, var_a) = prover.commit(field_elem_from_u64(a), FieldElement::random());
     let quantity_a = AllocatedQuantity {
         variable: var_a,
-        assignment: Some(a.into()),
+        assignment: Some(field_elem_from_u64(a)),
     };
     comms.push(com_a);
 
-    let (com_b, var_b) = prover.commit(b.into(), FieldElement::random());
+    let (com_b, var_b) = prover.commit(field_elem_from_u64(b), FieldElement::random());
     let quantity_b = AllocatedQuantity {
         variable: var_b,
-        assignment: Some(b.into()),
+        assignment: Some(field_elem_from_u64(b)),
     };
     comms.push(com_b);
 
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/vector_sum.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/vector_sum.rs
index 1b82d86..8cab734 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/vector_sum.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/vector_sum.rs
@@ -1,9 +1,10 @@
 use crate::r1cs::{ConstraintSystem, Variable};
+use crate::utils::field_elem_from_u64;
 use amcl_wrapper::field_elem::FieldElement;
 
 // Ensure sum of items of `vector` is `sum`
 pub fn vector_sum_constraints<CS: ConstraintSystem>(cs: &mut CS, vector: Vec<Variable>, sum: u64) {
-    let mut constraints = vec![(Variable::One(), FieldElement::from(sum).negation())];
+    let mut constraints = vec![(Variable::One(), field_elem_from_u64(sum).negation())];
     for i in vector {
         constraints.push((i, FieldElement::one()));
     }
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
index 27291f2..d989430 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
@@ -4,6 +4,7 @@ use super::helper_constraints::vector_sum::vector_sum_constraints;
 use crate::errors::{R1CSError, R1CSErrorKind};
 use crate::r1cs::linear_combination::AllocatedQuantity;
 use crate::r1cs::{ConstraintSystem, Prover, R1CSProof, Verifier};
+use crate::utils::field_elem_from_u64;
 use amcl_wrapper::field_elem::FieldElement;
 use amcl_wrapper::group_elem_g1::{G1Vector, G1};
 use merlin::Transcript;
@@ -55,9 +56,9 @@ pub fn vector_product_gadget<CS: ConstraintSystem>(
             toggles[i]
                 .assignment
                 .as_ref()
-                .map(|bit| (bit.clone(), items[i].into())),
+                .map(|bit| (bit.clone(), field_elem_from_u64(items[i]))),
         )?;
-        constrain_lc_with_scalar::<CS>(cs, item_var.into(), &items[i].into());
+        constrain_lc_with_scalar::<CS>(cs, item_var.into(), &field_elem_from_u64(items[i]));
         // The bit is the committed one
         cs.constrain(bit_var - toggles[i].variable);
 
@@ -99,7 +100,7 @@ pub fn prove_set_membership_alt<R: Rng + CryptoRng>(
     let mut toggles_vars = vec![];
     let mut toggles_allocs = vec![];
     for bit in toggles {
-        let bit_as_field_elem = FieldElement::from(bit);
+        let bit_as_field_elem = field_elem_from_u64(bit);
         let (com, var) = prover.commit(bit_as_field_elem.clone(), FieldElement::random());
         toggles_vars.push(var.clone());
         let quantity = AllocatedQuantity {
@@ -114,7 +115,7 @@ pub fn prove_set_membership_alt<R: Rng + CryptoRng>(
     // The toggle vector sum should be 1
     vector_sum_constraints(prover, toggles_vars, 1);
 
-    let _value = FieldElement::from(value);
+    let _value = field_elem_from_u64(value);
     let (com_value, var_value) = prover.commit(
         _value.clone(),
         randomness.unwrap_or_else(|| FieldElement::random_using_rng(rng.unwrap())),
diff --git a/libzmix/bulletproofs_amcl/src/utils/mod.rs b/libzmix/bulletproofs_amcl/src/utils/mod.rs
index 5b6c447..8bb6842 100644
--- a/libzmix/bulletproofs_amcl/src/utils/mod.rs
+++ b/libzmix/bulletproofs_amcl/src/utils/mod.rs
@@ -3,10 +3,18 @@ extern crate rand;
 pub mod hash_db;
 pub mod vector_poly;
 
+use amcl_wrapper::constants::FieldElement_SIZE;
 use amcl_wrapper::field_elem::FieldElement;
 use amcl_wrapper::group_elem::GroupElement;
 use amcl_wrapper::group_elem_g1::G1;
 
+/// `FieldElement::from(u64)` treats the number as a signed one and does not carry
+pub fn field_elem_from_u64(n: u64) -> FieldElement {
+    let mut bytes = [0u8; FieldElement_SIZE];
+    bytes[FieldElement_SIZE - 8..].copy_from_slice(&n.to_be_bytes());
+    FieldElement::from(&bytes)
+}
+
 pub fn get_generators(prefix: &str, n: usize) -> Vec<G1> {
     let mut gens: Vec<G1> = Vec::with_capacity(n);
     for i in 1..n + 1 {
-- 
2.43.0


From eabeded81a083b046ba0225f16a6f3e45a78b803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:29 +0000
Subject: [PATCH 48/85] fix: bulletproofs: the inverse S-box of Poseidon is
 applied to its input

---
 .../src/r1cs/gadgets/helper_constraints/poseidon.rs            | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/poseidon.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/poseidon.rs
index b9581d8..5d0e112 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/poseidon.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/poseidon.rs
@@ -240,6 +240,9 @@ impl SboxType {
         let (var_l, _) = cs.allocate_single(val_l)?;
         let (var_r, var_o) = cs.allocate_single(val_r)?;
 
+        // Ensure `var_l` is `inp_plus_const`
+        cs.constrain(inp_plus_const - var_l);
+
         // Ensure `inp_plus_const` is not zero
         is_nonzero_gadget(cs, var_l, var_r)?;
 
-- 
2.43.0


From ae0aff8f6bec38962102f34245d6f4ea6e124afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:29 +0000
Subject: [PATCH 49/85] fix: bulletproofs: MiMC of other than two values is an
 error, not a panic

---
 libzmix/bulletproofs_amcl/src/r1cs/gadgets/merkle_tree_hash.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/merkle_tree_hash.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/merkle_tree_hash.rs
index 9762e12..d639e62 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/merkle_tree_hash.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/merkle_tree_hash.rs
@@ -132,6 +132,7 @@ pub struct PoseidonHashConstraints<'a> {
 
 impl<'a> Arity2MerkleTreeHash for Mimc2<'a> {
     fn hash(&self, inputs: Vec<FieldElement>) -> Result<FieldElement, BulletproofError> {
+        Self::is_num_inputs_correct(&inputs)?;
         Ok(mimc(&inputs[0], &inputs[1], self.constants))
     }
 }
-- 
2.43.0


From 1e3dd46d22c6e81ce4d381534e3aa5b03aaaee50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:23 +0000
Subject: [PATCH 50/85] fix: bulletproofs: a proof of leaf inclusion has as
 many nodes as the tree has levels

---
 libzmix/bulletproofs_amcl/src/errors.rs         | 17 +++++++++++++++++
 .../sparse_merkle_tree_4_ary.rs                 |  4 +++-
 .../sparse_merkle_tree_8_ary.rs                 |  4 +++-
 3 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/libzmix/bulletproofs_amcl/src/errors.rs b/libzmix/bulletproofs_amcl/src/errors.rs
index 99b78b9..f1a79ce 100644
--- a/libzmix/bulletproofs_amcl/src/errors.rs
+++ b/libzmix/bulletproofs_amcl/src/errors.rs
@@ -231,6 +231,23 @@ macro_rules! check_for_commitments_length {
     }};
 }
 
+#[macro_export]
+macro_rules! check_for_merkle_proof_length {
+    ( $nodes:expr, $expected_length:expr ) => {{
+        if $nodes.len() != $expected_length {
+            Err(R1CSError::from(R1CSErrorKind::GadgetError {
+                description: format!(
+                    "Expected {} nodes in the merkle proof but found {}",
+                    $expected_length,
+                    $nodes.len()
+                ),
+            }))
+        } else {
+            Ok(())
+        }
+    }};
+}
+
 #[macro_export]
 macro_rules! check_for_input_and_blindings_length {
     ( $input:expr, $blindings:expr, $expected_length:expr ) => {{
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
index a189273..8353478 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
@@ -1,4 +1,4 @@
-use crate::errors::{BulletproofError, R1CSError};
+use crate::errors::{BulletproofError, R1CSError, R1CSErrorKind};
 use crate::r1cs::linear_combination::AllocatedQuantity;
 use crate::r1cs::{ConstraintSystem, LinearCombination, Variable};
 use amcl_wrapper::field_elem::FieldElement;
@@ -259,6 +259,8 @@ pub fn vanilla_merkle_merkle_tree_4_verif_gadget<
     mut proof_nodes: Vec<Variable>,
     hash_func: &mut MTHC,
 ) -> Result<(), R1CSError> {
+    check_for_merkle_proof_length!(proof_nodes, 3 * depth)?;
+
     let mut prev_hash = LinearCombination::from(leaf_val);
 
     // Initialize  constraint_leaf_index with -leaf_index.
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
index c7140e2..d2d3657 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
@@ -1,4 +1,4 @@
-use crate::errors::{BulletproofError, R1CSError};
+use crate::errors::{BulletproofError, R1CSError, R1CSErrorKind};
 use crate::r1cs::linear_combination::AllocatedQuantity;
 use crate::r1cs::{ConstraintSystem, LinearCombination, Variable};
 use amcl_wrapper::field_elem::FieldElement;
@@ -270,6 +270,8 @@ pub fn vanilla_merkle_merkle_tree_8_verif_gadget<
     mut proof_nodes: Vec<Variable>,
     hash_func: &mut MTHC,
 ) -> Result<(), R1CSError> {
+    check_for_merkle_proof_length!(proof_nodes, 7 * depth)?;
+
     let mut prev_hash = LinearCombination::from(leaf_val);
 
     // Initialize  constraint_leaf_index with -leaf_index.
-- 
2.43.0


From a45ad218d707f61271387b200a2fc691dbc9c63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:37 +0000
Subject: [PATCH 51/85] fix: bulletproofs: too few commitments for leaf
 inclusion are an error, not a panic

---
 .../src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs              | 4 +++-
 .../src/r1cs/gadgets/sparse_merkle_tree_8_ary.rs              | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
index d88dedb..86672c2 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
@@ -86,6 +86,8 @@ pub fn verify_leaf_inclusion_4_ary_merkle_tree<MTHC: Arity4MerkleTreeHashConstra
     h: &G1,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, if leaf_val.is_none() { 2 } else { 1 })?;
+
     let var_leaf_idx = verifier.commit(commitments.remove(0));
     let leaf_idx_alloc_scalar = AllocatedQuantity {
         variable: var_leaf_idx,
@@ -159,7 +161,7 @@ pub fn gen_proof_of_leaf_inclusion_4_ary_merkle_tree<
         + hash_params.full_rounds_end;
     println!("For 4-ary tree of height {} (has 2^{} leaves) and Poseidon rounds {}, no of multipliers is {} and constraints is {}", tree_depth, tree_depth*2, total_rounds, &prover.num_multipliers(), &prover.num_constraints());*/
 
-    let proof = prover.prove(G, H).unwrap();
+    let proof = prover.prove(G, H)?;
     let end = start.elapsed();
 
     println!("Proving time is {:?}", end);
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_8_ary.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_8_ary.rs
index a82e21d..9ba404e 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_8_ary.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_8_ary.rs
@@ -87,6 +87,8 @@ pub fn verify_leaf_inclusion_8_ary_merkle_tree<MTHC: Arity8MerkleTreeHashConstra
     h: &G1,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, if leaf_val.is_none() { 2 } else { 1 })?;
+
     let var_leaf_idx = verifier.commit(commitments.remove(0));
     let leaf_idx_alloc_scalar = AllocatedQuantity {
         variable: var_leaf_idx,
-- 
2.43.0


From 6b0442f8cb06e46ec7bdc5bf32ea832792f53575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:45 +0000
Subject: [PATCH 52/85] fix: bulletproofs: a merkle proof of the wrong length
 is an error, not a panic

---
 libzmix/bulletproofs_amcl/src/errors.rs                  | 7 +++++++
 .../helper_constraints/sparse_merkle_tree_4_ary.rs       | 9 ++++++++-
 .../helper_constraints/sparse_merkle_tree_8_ary.rs       | 9 ++++++++-
 3 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/libzmix/bulletproofs_amcl/src/errors.rs b/libzmix/bulletproofs_amcl/src/errors.rs
index f1a79ce..bed8967 100644
--- a/libzmix/bulletproofs_amcl/src/errors.rs
+++ b/libzmix/bulletproofs_amcl/src/errors.rs
@@ -60,6 +60,13 @@ pub enum BulletproofErrorKind {
     )]
     IncorrectNoOfInputsForMerkleTreeHash { found: usize, expected: usize },
 
+    /// Occurs when a merkle proof does not have as many nodes as the tree has levels
+    #[fail(
+        display = "Expected {} nodes in the merkle proof but found {}",
+        expected, found
+    )]
+    IncorrectMerkleProofLength { found: usize, expected: usize },
+
     /// Occurs when a error from Constraint system or gadget is returned.
     #[fail(display = "R1CS Error: {:?}", msg)]
     R1CSError { msg: String },
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
index 8353478..d9fd931 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
@@ -1,4 +1,4 @@
-use crate::errors::{BulletproofError, R1CSError, R1CSErrorKind};
+use crate::errors::{BulletproofError, BulletproofErrorKind, R1CSError, R1CSErrorKind};
 use crate::r1cs::linear_combination::AllocatedQuantity;
 use crate::r1cs::{ConstraintSystem, LinearCombination, Variable};
 use amcl_wrapper::field_elem::FieldElement;
@@ -168,6 +168,13 @@ where
         proof: &[ProofNode4ary],
         root: Option<&FieldElement>,
     ) -> Result<bool, BulletproofError> {
+        if proof.len() != self.depth {
+            return Err(BulletproofErrorKind::IncorrectMerkleProofLength {
+                found: proof.len(),
+                expected: self.depth,
+            }
+            .into());
+        }
         let mut path = Self::leaf_index_to_path(&idx, self.depth);
         path.reverse();
         let mut cur_val = val.clone();
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
index d2d3657..b5841c8 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
@@ -1,4 +1,4 @@
-use crate::errors::{BulletproofError, R1CSError, R1CSErrorKind};
+use crate::errors::{BulletproofError, BulletproofErrorKind, R1CSError, R1CSErrorKind};
 use crate::r1cs::linear_combination::AllocatedQuantity;
 use crate::r1cs::{ConstraintSystem, LinearCombination, Variable};
 use amcl_wrapper::field_elem::FieldElement;
@@ -173,6 +173,13 @@ where
         proof: &[ProofNode8ary],
         root: Option<&FieldElement>,
     ) -> Result<bool, BulletproofError> {
+        if proof.len() != self.depth {
+            return Err(BulletproofErrorKind::IncorrectMerkleProofLength {
+                found: proof.len(),
+                expected: self.depth,
+            }
+            .into());
+        }
         let mut path = Self::leaf_index_to_path(idx, self.depth);
         path.reverse();
         let mut cur_val = val.clone();
-- 
2.43.0


From 06bc00d82d1a384b1f565501c035b99b5f43e2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:19 +0000
Subject: [PATCH 53/85] fix: do not panic on revealed message or response
 indices out of range in a proof of a PS signature

---
 libzmix/src/signatures/ps/pok_sig.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/libzmix/src/signatures/ps/pok_sig.rs b/libzmix/src/signatures/ps/pok_sig.rs
index 99f415c..6069203 100644
--- a/libzmix/src/signatures/ps/pok_sig.rs
+++ b/libzmix/src/signatures/ps/pok_sig.rs
@@ -185,12 +185,12 @@ impl PoKOfSignatureProof {
     /// Used when comparing message equality
     pub fn get_resp_for_message(&self, msg_idx: usize) -> Result<FieldElement, PSError> {
         // 1 element in self.proof_vc.responses is reserved for the random `t`
-        if msg_idx >= (self.proof_vc.responses.len() - 1) {
+        let hidden_msg_count = self.proof_vc.responses.len().saturating_sub(1);
+        if msg_idx >= hidden_msg_count {
             return Err(PSErrorKind::GeneralError {
                 msg: format!(
                     "Message index was given {} but should be less than {}",
-                    msg_idx,
-                    self.proof_vc.responses.len() - 1
+                    msg_idx, hidden_msg_count
                 ),
             }
             .into());
@@ -207,6 +207,15 @@ impl PoKOfSignatureProof {
         revealed_msgs: HashMap<usize, FieldElement>,
         challenge: &FieldElement,
     ) -> Result<bool, PSError> {
+        for idx in revealed_msgs.keys() {
+            if *idx >= vk.Y_tilde.len() {
+                return Err(PSErrorKind::GeneralError {
+                    msg: format!("Index {} should be less than {}", idx, vk.Y_tilde.len()),
+                }
+                .into());
+            }
+        }
+
         if self.sig.sigma_1.is_identity() || self.sig.sigma_2.is_identity() {
             return Ok(false);
         }
-- 
2.43.0


From c49bba6a3c4de33d950f35768d6470e3dceaf544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:22 +0000
Subject: [PATCH 54/85] fix: read a PS proof of the other group with the size
 of that group's elements

---
 libzmix/src/signatures/ps/mod.rs     | 4 ++++
 libzmix/src/signatures/ps/pok_sig.rs | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/libzmix/src/signatures/ps/mod.rs b/libzmix/src/signatures/ps/mod.rs
index 0e93378..857dd2a 100644
--- a/libzmix/src/signatures/ps/mod.rs
+++ b/libzmix/src/signatures/ps/mod.rs
@@ -24,6 +24,8 @@ pub(crate) fn ate_2_pairing(
 }
 #[cfg(feature = "PS_Signature_G2")]
 pub const SIGNATURE_GROUP_SIZE: usize = amcl_wrapper::types_g2::GroupG2_SIZE;
+#[cfg(feature = "PS_Signature_G2")]
+pub const OTHER_GROUP_SIZE: usize = amcl_wrapper::constants::GroupG1_SIZE;
 
 #[cfg(feature = "PS_Signature_G1")]
 pub type SignatureGroup = amcl_wrapper::group_elem_g1::G1;
@@ -44,6 +46,8 @@ pub(crate) fn ate_2_pairing(
 }
 #[cfg(feature = "PS_Signature_G1")]
 pub const SIGNATURE_GROUP_SIZE: usize = amcl_wrapper::constants::GroupG1_SIZE;
+#[cfg(feature = "PS_Signature_G1")]
+pub const OTHER_GROUP_SIZE: usize = amcl_wrapper::types_g2::GroupG2_SIZE;
 
 pub mod blind_signature;
 pub mod errors;
diff --git a/libzmix/src/signatures/ps/pok_sig.rs b/libzmix/src/signatures/ps/pok_sig.rs
index 6069203..15a2d46 100644
--- a/libzmix/src/signatures/ps/pok_sig.rs
+++ b/libzmix/src/signatures/ps/pok_sig.rs
@@ -7,7 +7,7 @@ use super::{ate_2_pairing, OtherGroup, OtherGroupVec};
 use crate::commitments::pok_vc::{PoKVCError, PoKVCErrorKind};
 use amcl_wrapper::field_elem::{FieldElement, FieldElementVector};
 use amcl_wrapper::group_elem::{GroupElement, GroupElementVector};
-use signatures::ps::{keys::Params, SIGNATURE_GROUP_SIZE};
+use signatures::ps::{keys::Params, OTHER_GROUP_SIZE};
 use std::collections::{HashMap, HashSet};
 
 // Implement proof of knowledge of committed values in a vector commitment for `SignatureGroup`
@@ -18,7 +18,7 @@ impl_PoK_VC!(
     ProofOtherGroup,
     OtherGroup,
     OtherGroupVec,
-    SIGNATURE_GROUP_SIZE
+    OTHER_GROUP_SIZE
 );
 
 /*
-- 
2.43.0


From 56a714a19fa77a4b91c7e8da5bb8c155bd4e1f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:15 +0000
Subject: [PATCH 55/85] fix: refuse a Groth signature over fewer elements than
 there are messages, and parameters for no messages

---
 .../src/signatures/delg_cred_cdd/groth_sig.rs | 38 ++++++++++++++++---
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/libzmix/src/signatures/delg_cred_cdd/groth_sig.rs b/libzmix/src/signatures/delg_cred_cdd/groth_sig.rs
index 1b7c67b..15ace80 100644
--- a/libzmix/src/signatures/delg_cred_cdd/groth_sig.rs
+++ b/libzmix/src/signatures/delg_cred_cdd/groth_sig.rs
@@ -88,7 +88,7 @@ macro_rules! impl_GrothS_setup {
 
 macro_rules! impl_GrothSig_new {
     ( $messages:ident, $sk:ident, $y:expr, $g_r:expr, $g_s:expr, $msg_group_vec:ident ) => {{
-        if $messages.len() > $y.len() {
+        if $y.len() == 0 || $messages.len() > $y.len() {
             return Err(DelgCredCDDErrorKind::UnsupportedNoOfMessages {
                 expected: $y.len(),
                 given: $messages.len(),
@@ -204,13 +204,20 @@ impl Groth1Sig {
         verkey: &Groth1Verkey,
         setup_params: &Groth1SetupParams,
     ) -> DelgCredCDDResult<bool> {
-        if messages.len() > setup_params.y.len() {
+        if setup_params.y.len() == 0 || messages.len() > setup_params.y.len() {
             return Err(DelgCredCDDErrorKind::UnsupportedNoOfMessages {
                 expected: setup_params.y.len(),
                 given: messages.len(),
             }
             .into());
         }
+        if messages.len() > self.T.len() {
+            return Err(DelgCredCDDErrorKind::UnsupportedNoOfMessages {
+                expected: self.T.len(),
+                given: messages.len(),
+            }
+            .into());
+        }
 
         // e(S, R) == e(y_0, g2) * (g1, V) => e(y_0, g2) * (g1, V) * e(S, R)^-1 == 1 => e(y_0, g2) * (g1, V) * e(S^-1, R) == 1
         let negS = self.S.negation();
@@ -255,13 +262,20 @@ impl Groth1Sig {
         verkey: &Groth1Verkey,
         setup_params: &Groth1SetupParams,
     ) -> DelgCredCDDResult<bool> {
-        if messages.len() > setup_params.y.len() {
+        if setup_params.y.len() == 0 || messages.len() > setup_params.y.len() {
             return Err(DelgCredCDDErrorKind::UnsupportedNoOfMessages {
                 expected: setup_params.y.len(),
                 given: messages.len(),
             }
             .into());
         }
+        if messages.len() > self.T.len() {
+            return Err(DelgCredCDDErrorKind::UnsupportedNoOfMessages {
+                expected: self.T.len(),
+                given: messages.len(),
+            }
+            .into());
+        }
 
         let mut pairing_elems: Vec<(G1, G2)> = vec![];
         let r = FieldElement::random();
@@ -376,13 +390,20 @@ impl Groth2Sig {
         verkey: &Groth2Verkey,
         setup_params: &Groth2SetupParams,
     ) -> DelgCredCDDResult<bool> {
-        if messages.len() > setup_params.y.len() {
+        if setup_params.y.len() == 0 || messages.len() > setup_params.y.len() {
             return Err(DelgCredCDDErrorKind::UnsupportedNoOfMessages {
                 expected: setup_params.y.len(),
                 given: messages.len(),
             }
             .into());
         }
+        if messages.len() > self.T.len() {
+            return Err(DelgCredCDDErrorKind::UnsupportedNoOfMessages {
+                expected: self.T.len(),
+                given: messages.len(),
+            }
+            .into());
+        }
 
         // e(R, S) == e(g1, y_0) * (V, g2) => 1 == e(g1, y_0) * (V, g2) * e(R, S)^-1 => 1 == e(g1, y_0) * (V, g2) * e(R^-1, S)
         let negR = self.R.negation();
@@ -426,13 +447,20 @@ impl Groth2Sig {
         verkey: &Groth2Verkey,
         setup_params: &Groth2SetupParams,
     ) -> DelgCredCDDResult<bool> {
-        if messages.len() > setup_params.y.len() {
+        if setup_params.y.len() == 0 || messages.len() > setup_params.y.len() {
             return Err(DelgCredCDDErrorKind::UnsupportedNoOfMessages {
                 expected: setup_params.y.len(),
                 given: messages.len(),
             }
             .into());
         }
+        if messages.len() > self.T.len() {
+            return Err(DelgCredCDDErrorKind::UnsupportedNoOfMessages {
+                expected: self.T.len(),
+                given: messages.len(),
+            }
+            .into());
+        }
 
         let mut pairing_elems: Vec<(G1, G2)> = vec![];
         let r = FieldElement::random();
-- 
2.43.0


From 521f4a1b7285b39fbf16e0d4e07ae82cc856043f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:15 +0000
Subject: [PATCH 56/85] fix: do not panic on delegation chains with missing
 links, keys or attributes

---
 .../src/signatures/delg_cred_cdd/issuer.rs    | 29 +++++++++++++++----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/libzmix/src/signatures/delg_cred_cdd/issuer.rs b/libzmix/src/signatures/delg_cred_cdd/issuer.rs
index 7b3229e..9078a23 100644
--- a/libzmix/src/signatures/delg_cred_cdd/issuer.rs
+++ b/libzmix/src/signatures/delg_cred_cdd/issuer.rs
@@ -30,7 +30,10 @@ macro_rules! impl_CredLink {
             }
 
             pub fn has_verkey(&self, vk: &$delegatee_vk) -> bool {
-                self.attributes[self.attributes.len() - 1] == vk.0
+                match self.attributes.as_slice().last() {
+                    Some(last) => *last == vk.0,
+                    None => false,
+                }
             }
 
             /// Check that link correct number of attributes, has the delegatee's verkey and has
@@ -59,6 +62,13 @@ macro_rules! impl_CredLink {
                     }
                     .into());
                 }
+                if self.attributes.len() > self.signature.T.len() {
+                    return Err(DelgCredCDDErrorKind::MoreAttributesThanExpected {
+                        expected: self.signature.T.len(),
+                        given: self.attributes.len(),
+                    }
+                    .into());
+                }
                 if !self.has_verkey(delegatee_vk) {
                     return Err(DelgCredCDDErrorKind::VerkeyNotFoundInDelegationLink {}.into());
                 }
@@ -199,7 +209,7 @@ impl CredChain {
             }
             .into());
         } else if self.odd_size() != 0
-            && ((link.level - self.odd_links[self.odd_size() - 1].level) != 2)
+            && link.level != self.odd_links[self.odd_size() - 1].level + 2
         {
             return Err(DelgCredCDDErrorKind::UnexpectedLevel {
                 expected: self.odd_links[self.odd_size() - 1].level + 2,
@@ -222,7 +232,7 @@ impl CredChain {
             }
             .into());
         } else if self.even_size() != 0
-            && ((link.level - self.even_links[self.even_size() - 1].level) != 2)
+            && link.level != self.even_links[self.even_size() - 1].level + 2
         {
             return Err(DelgCredCDDErrorKind::UnexpectedLevel {
                 expected: self.even_links[self.even_size() - 1].level + 2,
@@ -408,11 +418,11 @@ impl CredChain {
         let mut new_chain = CredChain::new();
         for i in 1..=size {
             if (i % 2) == 1 {
-                new_chain.odd_links.push(self.odd_links[i / 2].clone());
+                new_chain.odd_links.push(self.get_odd_link(i / 2)?.clone());
             } else {
                 new_chain
                     .even_links
-                    .push(self.even_links[(i / 2) - 1].clone());
+                    .push(self.get_even_link((i / 2) - 1)?.clone());
             }
         }
         Ok(new_chain)
@@ -428,6 +438,15 @@ impl CredChain {
         if size == 0 {
             return Err(DelgCredCDDErrorKind::ChainEmpty {}.into());
         }
+        // Odd and even links alternate, starting with an odd one
+        if self.even_size() != size / 2 {
+            return Err(DelgCredCDDErrorKind::IncorrectNumberOfEvenValues {
+                expected: size / 2,
+                given: self.even_size(),
+                entity_type: "links in chain".to_string(),
+            }
+            .into());
+        }
         if (even_level_vks.len() + odd_level_vks.len()) != (size + 1) {
             return Err(DelgCredCDDErrorKind::IncorrectNumberOfVerkeys {
                 expected: size + 1,
-- 
2.43.0


From c1421d3be86f068b66cf1fad26a5d23ce9f86253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:57 +0000
Subject: [PATCH 57/85] fix: hash the revealed attributes of an attribute token
 in a fixed order

---
 .../delg_cred_cdd/attribute_token.rs           | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs b/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs
index 6b8da89..e0b5314 100644
--- a/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs
+++ b/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs
@@ -1324,15 +1324,21 @@ impl AttributeTokenComm {
             }
         }
         for r_map in &self.odd_level_revealed_attributes {
-            for e in r_map.iter() {
-                bytes.extend_from_slice(e.0.to_string().as_bytes());
-                bytes.extend_from_slice(&e.1.to_bytes());
+            // The prover and the verifier have to use the same order
+            let mut indices: Vec<&usize> = r_map.keys().collect();
+            indices.sort();
+            for i in indices {
+                bytes.extend_from_slice(i.to_string().as_bytes());
+                bytes.extend_from_slice(&r_map[i].to_bytes());
             }
         }
         for r_map in &self.even_level_revealed_attributes {
-            for e in r_map.iter() {
-                bytes.extend_from_slice(e.0.to_string().as_bytes());
-                bytes.extend_from_slice(&e.1.to_bytes());
+            // The prover and the verifier have to use the same order
+            let mut indices: Vec<&usize> = r_map.keys().collect();
+            indices.sort();
+            for i in indices {
+                bytes.extend_from_slice(i.to_string().as_bytes());
+                bytes.extend_from_slice(&r_map[i].to_bytes());
             }
         }
         bytes
-- 
2.43.0


From 7422cd50c93437cf071f8420d351a5df00434678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:57 +0000
Subject: [PATCH 58/85] fix: start every commitment of an attribute token
 afresh

---
 libzmix/src/signatures/delg_cred_cdd/attribute_token.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs b/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs
index e0b5314..560c818 100644
--- a/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs
+++ b/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs
@@ -722,6 +722,15 @@ impl<'a> AttributeToken<'a> {
         let mut comms_s = Vec::<GT>::with_capacity(self.L);
         let mut comms_t = Vec::<Vec<GT>>::with_capacity(self.L);
 
+        // Forget any earlier commitment
+        self.odd_level_blinded_sigs.clear();
+        self.even_level_blinded_sigs.clear();
+        self.blindings_sigs = FieldElementVector::with_capacity(self.L);
+        self.blindings_vk = FieldElementVector::with_capacity(self.L);
+        self.blindings_s = FieldElementVector::with_capacity(self.L);
+        self.blindings_t.clear();
+        self.blindings_a.clear();
+
         for i in 1..=self.L {
             let rho_sig = FieldElement::random();
             let rho_s = FieldElement::random();
-- 
2.43.0


From 00025cdc25f0fdea5234f5817ec0ddd5adaae18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:57 +0000
Subject: [PATCH 59/85] fix: keep the commitments of an attribute token
 readable after serialization

---
 libzmix/src/signatures/delg_cred_cdd/attribute_token.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs b/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs
index 560c818..2b3842b 100644
--- a/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs
+++ b/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs
@@ -906,8 +906,8 @@ impl<'a> AttributeToken<'a> {
             self.blindings_vk.push(rho_vk);
             self.blindings_t.push(rho_t);
             self.blindings_a.push(rho_a);
-            comms_s.push(com_s);
-            comms_t.push(com_t);
+            comms_s.push(reduced(&com_s));
+            comms_t.push(com_t.iter().map(reduced).collect());
         }
         let odd_level_blinded_r: G2Vector = self
             .odd_level_blinded_sigs
@@ -1377,6 +1377,11 @@ impl AttributeTokenResp {
     }
 }
 
+/// Products are not fully reduced and might have a hex representation that is too long to be read
+fn reduced(e: &GT) -> GT {
+    GT::from_bytes(&e.to_bytes()).unwrap()
+}
+
 // XXX: Temporary until binary_scalar_mul is added to G2
 fn binary_scalar_mul_g2(g2: &G2, h2: &G2, r1: &FieldElement, r2: &FieldElement) -> G2 {
     let mut g2_vec = G2Vector::with_capacity(2);
-- 
2.43.0


From 366b7fbff68eac600414a68f907e57c369c62acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:57 +0000
Subject: [PATCH 60/85] fix: check an attribute token with a response or a
 challenge of zero without hanging

---
 .../delg_cred_cdd/attribute_token.rs          | 29 ++++++++++++-------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs b/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs
index 2b3842b..54e7e27 100644
--- a/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs
+++ b/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs
@@ -961,9 +961,9 @@ impl<'a> AttributeToken<'a> {
         // g2^-c
         let groth1_g2_c = &setup_params_1.g2 * &challenge_neg;
         // e(y0, g2)^{-c}
-        let y0_g2_c = precomputed.groth1_y0_g2.pow(&challenge_neg);
+        let y0_g2_c = gt_pow(&precomputed.groth1_y0_g2, &challenge_neg);
         // e(g1, y0)^{-c}
-        let g1_y0_c = &precomputed.groth2_g1_y0.pow(&challenge_neg);
+        let g1_y0_c = &gt_pow(&precomputed.groth2_g1_y0, &challenge_neg);
 
         for i in 1..=L {
             if i % 2 == 1 {
@@ -997,7 +997,7 @@ impl<'a> AttributeToken<'a> {
                     // e(g1, ipk) * e(y0, g2)
                     let e_2 = &precomputed.groth1_g1_ipk * &precomputed.groth1_y0_g2;
                     // ( e(g1, ipk) * e(y0, g2) )^-c
-                    let e_3 = GT::pow(&e_2, &challenge_neg);
+                    let e_3 = gt_pow(&e_2, &challenge_neg);
                     // e(resp_s_i, r'_i) * ( e(g1, ipk) * e(y0, g2) )^-c
                     &e_1 * &e_3
                 } else {
@@ -1024,7 +1024,7 @@ impl<'a> AttributeToken<'a> {
                                 &resp.odd_level_resp_a[i / 2][k],
                                 &groth1_neg_g2,
                             );
-                            let e_2 = GT::pow(&precomputed.groth1_y_ipk[j], &challenge_neg);
+                            let e_2 = gt_pow(&precomputed.groth1_y_ipk[j], &challenge_neg);
                             com_t.push(&e_1 * &e_2);
                         } else {
                             com_t.push(GT::ate_multi_pairing(vec![
@@ -1048,7 +1048,7 @@ impl<'a> AttributeToken<'a> {
                                 &comm.odd_level_revealed_attributes[i / 2][&j],
                                 &groth1_g2_c,
                             );
-                            let e_2 = GT::pow(&precomputed.groth1_y_ipk[j], &challenge_neg);
+                            let e_2 = gt_pow(&precomputed.groth1_y_ipk[j], &challenge_neg);
                             com_t.push(&e_1 * &e_2);
                         } else {
                             com_t.push(GT::ate_multi_pairing(vec![
@@ -1076,17 +1076,17 @@ impl<'a> AttributeToken<'a> {
                             &groth1_neg_g2,
                         );
                         let e_2 =
-                            GT::pow(&precomputed.groth1_y_ipk[attr_count - 1], &challenge_neg);
+                            gt_pow(&precomputed.groth1_y_ipk[attr_count - 1], &challenge_neg);
                         &e_1 * &e_2
                     } else {
                         let e_1 = GT::ate_pairing(
                             &resp.odd_level_resp_t[i / 2][attr_count - 1],
                             &comm.odd_level_blinded_r[i / 2],
                         );
-                        let e_3 = GT::pow(&precomputed.pairing_inv_groth1_g1_g2, &resp.resp_csk);
+                        let e_3 = gt_pow(&precomputed.pairing_inv_groth1_g1_g2, &resp.resp_csk);
                         let e_4 = &e_1 * &e_3;
                         let e_5 =
-                            GT::pow(&precomputed.groth1_y_ipk[attr_count - 1], &challenge_neg);
+                            gt_pow(&precomputed.groth1_y_ipk[attr_count - 1], &challenge_neg);
                         &e_4 * &e_5
                     }
                 } else {
@@ -1109,7 +1109,7 @@ impl<'a> AttributeToken<'a> {
                             &(-&setup_params_1.y[attr_count - 1]),
                             &resp.even_level_resp_vk[(i / 2) - 1],
                         );
-                        let e_3 = GT::pow(&precomputed.pairing_inv_groth1_g1_g2, &resp.resp_csk);
+                        let e_3 = gt_pow(&precomputed.pairing_inv_groth1_g1_g2, &resp.resp_csk);
                         &e_1 * &e_3
                     }
                 };
@@ -1204,7 +1204,7 @@ impl<'a> AttributeToken<'a> {
                         &resp.odd_level_resp_vk[(i / 2) - 1],
                         &(-&setup_params_2.y[attr_count - 1]),
                     );
-                    let e_3 = GT::pow(&precomputed.pairing_inv_groth2_g1_g2, &resp.resp_csk);
+                    let e_3 = gt_pow(&precomputed.pairing_inv_groth2_g1_g2, &resp.resp_csk);
                     &e_1 * &e_3
                 };
                 com_t.push(com_i_vk);
@@ -1382,6 +1382,15 @@ fn reduced(e: &GT) -> GT {
     GT::from_bytes(&e.to_bytes()).unwrap()
 }
 
+/// `GT::pow` does not terminate (or panics) when the exponent is 0
+fn gt_pow(base: &GT, exp: &FieldElement) -> GT {
+    if exp.is_zero() {
+        GT::one()
+    } else {
+        base.pow(exp)
+    }
+}
+
 // XXX: Temporary until binary_scalar_mul is added to G2
 fn binary_scalar_mul_g2(g2: &G2, h2: &G2, r1: &FieldElement, r2: &FieldElement) -> G2 {
     let mut g2_vec = G2Vector::with_capacity(2);
-- 
2.43.0


From 5baa449fd8e21f4b41678747bf65ca3450238e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:44 +0000
Subject: [PATCH 61/85] fix: refuse attribute tokens that reveal attributes
 without proof or have missing parts

---
 .../delg_cred_cdd/attribute_token.rs          | 179 +++++++++++++++++-
 1 file changed, 174 insertions(+), 5 deletions(-)

diff --git a/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs b/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs
index 54e7e27..bd7f229 100644
--- a/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs
+++ b/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs
@@ -240,6 +240,22 @@ impl<'a> AttributeToken<'a> {
         odd_level_vks: Vec<&OddLevelVerkey>,
     ) -> DelgCredCDDResult<AttributeTokenResp> {
         at.validate(self.L)?;
+        check_count("committed levels", self.L, self.blindings_a.len())?;
+        // The verkeys of all levels but the last are needed
+        if odd_level_vks.len() < self.L / 2 {
+            return Err(DelgCredCDDErrorKind::IncorrectNumberOfOddLevelVerkeys {
+                expected: self.L / 2,
+                given: odd_level_vks.len(),
+            }
+            .into());
+        }
+        if even_level_vks.len() < self.L.saturating_sub(1) / 2 {
+            return Err(DelgCredCDDErrorKind::IncorrectNumberOfEvenLevelVerkeys {
+                expected: self.L.saturating_sub(1) / 2,
+                given: even_level_vks.len(),
+            }
+            .into());
+        }
 
         let mut resp_csk = FieldElement::zero();
         let mut odd_level_resp_vk = G1Vector::new(0);
@@ -273,8 +289,11 @@ impl<'a> AttributeToken<'a> {
                 }
 
                 // Total messages - revealed attributes - last message (for verkey)
-                let unrevealed_attr_count =
-                    link.attribute_count() - at.odd_level_revealed_attributes[i / 2].len() - 1;
+                let revealed = at.odd_level_revealed_attributes[i / 2]
+                    .keys()
+                    .cloned()
+                    .collect();
+                let unrevealed_attr_count = check_revealed(&revealed, link.attribute_count())?;
 
                 check_blindings_count!(self, i, link, unrevealed_attr_count)?;
 
@@ -326,9 +345,11 @@ impl<'a> AttributeToken<'a> {
                 }
 
                 // Total messages - revealed attributes - last message (for verkey)
-                let unrevealed_attr_count = link.attribute_count()
-                    - at.even_level_revealed_attributes[(i / 2) - 1].len()
-                    - 1;
+                let revealed = at.even_level_revealed_attributes[(i / 2) - 1]
+                    .keys()
+                    .cloned()
+                    .collect();
+                let unrevealed_attr_count = check_revealed(&revealed, link.attribute_count())?;
 
                 check_blindings_count!(self, i, link, unrevealed_attr_count)?;
 
@@ -401,6 +422,7 @@ impl<'a> AttributeToken<'a> {
     ) -> DelgCredCDDResult<AttributeTokenComm> {
         comm.validate(L)?;
         resp.validate(L)?;
+        Self::check_token(L, comm, resp, &revealed, setup_params_1, setup_params_2)?;
 
         let mut comms_s = Vec::<GT>::with_capacity(L);
         let mut comms_t = Vec::<Vec<GT>>::with_capacity(L);
@@ -715,6 +737,40 @@ impl<'a> AttributeToken<'a> {
             );
         }
 
+        check_count(
+            "links with precomputed values",
+            self.L,
+            precomp_chain.pairing_g_r.len(),
+        )?;
+        for i in 1..=self.L {
+            let (attr_count, t_count, max_attrs) = if i % 2 == 1 {
+                let link = self.cred_chain.get_odd_link(i / 2)?;
+                let max = self
+                    .setup_params_1
+                    .y
+                    .len()
+                    .min(precomp_setup.groth1_neg_y_g2.len());
+                (link.attribute_count(), link.signature.T.len(), max)
+            } else {
+                let link = self.cred_chain.get_even_link((i / 2) - 1)?;
+                let max = self
+                    .setup_params_2
+                    .y
+                    .len()
+                    .min(precomp_setup.groth2_neg_g1_y.len());
+                (link.attribute_count(), link.signature.T.len(), max)
+            };
+            if attr_count > max_attrs {
+                return Err(DelgCredCDDErrorKind::MoreAttributesThanExpected {
+                    expected: max_attrs + 1,
+                    given: attr_count,
+                }
+                .into());
+            }
+            check_count("elements of the signature", attr_count, t_count)?;
+            check_revealed(&revealed[i - 1], attr_count)?;
+        }
+
         let mut odd_level_revealed_attributes =
             Vec::<HashMap<usize, OddLevelAttribute>>::with_capacity(self.L);
         let mut even_level_revealed_attributes =
@@ -932,6 +988,69 @@ impl<'a> AttributeToken<'a> {
         })
     }
 
+    /// Check that the commitment and the response have everything that is needed at each level, and
+    /// that the commitment reveals exactly the attributes which are going to be verified.
+    fn check_token(
+        L: usize,
+        comm: &AttributeTokenComm,
+        resp: &AttributeTokenResp,
+        revealed: &[HashSet<usize>],
+        setup_params_1: &Groth1SetupParams,
+        setup_params_2: &Groth2SetupParams,
+    ) -> DelgCredCDDResult<()> {
+        if L == 0 {
+            return Err(DelgCredCDDErrorKind::ChainEmpty {}.into());
+        }
+        if revealed.len() != L {
+            return Err(
+                DelgCredCDDErrorKind::IncorrectNumberOfRevealedAttributeSets {
+                    expected: L,
+                    given: revealed.len(),
+                }
+                .into(),
+            );
+        }
+        for i in 1..=L {
+            let attr_count = comm.comms_t[i - 1].len();
+            let (max_attrs, t_count, a_count, same) = if i % 2 == 1 {
+                let attrs = &comm.odd_level_revealed_attributes[i / 2];
+                (
+                    setup_params_1.y.len(),
+                    resp.odd_level_resp_t[i / 2].len(),
+                    resp.odd_level_resp_a[i / 2].len(),
+                    attrs.len() == revealed[i - 1].len()
+                        && attrs.keys().all(|j| revealed[i - 1].contains(j)),
+                )
+            } else {
+                let attrs = &comm.even_level_revealed_attributes[(i / 2) - 1];
+                (
+                    setup_params_2.y.len(),
+                    resp.even_level_resp_t[(i / 2) - 1].len(),
+                    resp.even_level_resp_a[(i / 2) - 1].len(),
+                    attrs.len() == revealed[i - 1].len()
+                        && attrs.keys().all(|j| revealed[i - 1].contains(j)),
+                )
+            };
+            if attr_count > max_attrs {
+                return Err(DelgCredCDDErrorKind::MoreAttributesThanExpected {
+                    expected: max_attrs + 1,
+                    given: attr_count,
+                }
+                .into());
+            }
+            if !same {
+                return Err(DelgCredCDDErrorKind::GeneralError {
+                    msg: format!("revealed attributes of level {} are not those expected", i),
+                }
+                .into());
+            }
+            let unrevealed_attr_count = check_revealed(&revealed[i - 1], attr_count)?;
+            check_count("responses for t from signature", attr_count, t_count)?;
+            check_count("responses for attributes", unrevealed_attr_count, a_count)?;
+        }
+        Ok(())
+    }
+
     pub fn reconstruct_commitment_with_precomputed_vals(
         L: usize,
         comm: &AttributeTokenComm,
@@ -944,6 +1063,7 @@ impl<'a> AttributeToken<'a> {
     ) -> DelgCredCDDResult<AttributeTokenComm> {
         comm.validate(L)?;
         resp.validate(L)?;
+        Self::check_token(L, comm, resp, &revealed, setup_params_1, setup_params_2)?;
 
         let mut comms_s = Vec::<GT>::with_capacity(L);
         let mut comms_t = Vec::<Vec<GT>>::with_capacity(L);
@@ -955,6 +1075,15 @@ impl<'a> AttributeToken<'a> {
         let groth2_neg_g1 = -&setup_params_2.g1;
         let groth2_neg_g2 = -&setup_params_2.g2;
 
+        // The first level uses the precomputed values
+        if comm.comms_t[0].len() > precomputed.groth1_y_ipk.len() {
+            return Err(DelgCredCDDErrorKind::MoreAttributesThanExpected {
+                expected: precomputed.groth1_y_ipk.len() + 1,
+                given: comm.comms_t[0].len(),
+            }
+            .into());
+        }
+
         let challenge_neg = -challenge;
         // g1^-c
         let groth2_g1_c = &setup_params_2.g1 * &challenge_neg;
@@ -1373,10 +1502,50 @@ impl AttributeTokenResp {
             }
             .into());
         }
+
+        check_odd_collection_length!(self.odd_level_resp_s, L, "resp s".to_string())?;
+        check_even_collection_length!(self.even_level_resp_s, L, "resp s".to_string())?;
+        check_odd_collection_length!(self.odd_level_resp_t, L, "resp t".to_string())?;
+        check_even_collection_length!(self.even_level_resp_t, L, "resp t".to_string())?;
+        check_odd_collection_length!(self.odd_level_resp_a, L, "resp a".to_string())?;
+        check_even_collection_length!(self.even_level_resp_a, L, "resp a".to_string())?;
+        // There is a response for the verkey of each level but the last
+        check_count("odd responses for verkeys", L / 2, self.odd_level_resp_vk.len())?;
+        check_count(
+            "even responses for verkeys",
+            L.saturating_sub(1) / 2,
+            self.even_level_resp_vk.len(),
+        )?;
         Ok(())
     }
 }
 
+fn check_count(entity_type: &str, expected: usize, given: usize) -> DelgCredCDDResult<()> {
+    if expected != given {
+        return Err(DelgCredCDDErrorKind::GeneralError {
+            msg: format!("expected {} {}, given {}", expected, entity_type, given),
+        }
+        .into());
+    }
+    Ok(())
+}
+
+/// Check that the indices are those of attributes (the last one is the verkey and is never
+/// revealed) and return the number of attributes which are not revealed.
+fn check_revealed(revealed: &HashSet<usize>, attr_count: usize) -> DelgCredCDDResult<usize> {
+    if revealed.iter().any(|j| *j >= attr_count.saturating_sub(1)) {
+        return Err(DelgCredCDDErrorKind::MoreAttributesThanExpected {
+            expected: attr_count,
+            given: revealed.len(),
+        }
+        .into());
+    }
+    if attr_count == 0 {
+        return Err(DelgCredCDDErrorKind::VerkeyNotFoundInDelegationLink {}.into());
+    }
+    Ok(attr_count - 1 - revealed.len())
+}
+
 /// Products are not fully reduced and might have a hex representation that is too long to be read
 fn reduced(e: &GT) -> GT {
     GT::from_bytes(&e.to_bytes()).unwrap()
-- 
2.43.0


From 09af78f99c455bcb13d28a79c5bac61fc5596c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:46 +0000
Subject: [PATCH 62/85] fix: refuse a verifiable encryption with a number of
 ciphertexts that differs from what is proved, or that cannot be decrypted

---
 .../cs_verifiable_encryption.rs               | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs b/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs
index 0a85479..10c02d5 100644
--- a/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs
+++ b/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs
@@ -354,12 +354,31 @@ pub fn reconstruct_blindings_ciphertext(
         ));
     }
 
+    if message_s_values.len() != ciphertext.e.len() {
+        return Err(UrsaCryptoError::from_msg(
+            UrsaCryptoErrorKind::InvalidStructure,
+            format!(
+                "number of messages {} is not equal to the number of encrypted messages {}",
+                message_s_values.len(),
+                ciphertext.e.len()
+            ),
+        ));
+    }
+
     let challenge = &(challenge.lshift1()?);
     let r_hat = &(r_hat.lshift1()?);
 
     let paillier_group = &pub_key.paillier_group;
     let mut ctx = BigNumber::new_context()?;
 
+    // Decryption would refuse the ciphertext otherwise
+    if ciphertext.v != paillier_group.abs(&ciphertext.v, Some(&mut ctx))? {
+        return Err(UrsaCryptoError::from_msg(
+            UrsaCryptoErrorKind::InvalidStructure,
+            format!("absolute check failed for v {:?}", &ciphertext.v),
+        ));
+    }
+
     let u_c = paillier_group.exponentiate(&ciphertext.u, challenge, Some(&mut ctx))?;
     let g_r_hat = paillier_group.exponentiate_g(r_hat, Some(&mut ctx))?;
     // Reconstruct u blinding
-- 
2.43.0


From b1a7400b5a724c7ad4af04e790c1baf0666423c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:46 +0000
Subject: [PATCH 63/85] fix: hide the randomness of a ciphertext in the proof
 of verifiable encryption

---
 .../cs_verifiable_encryption.rs                     | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs b/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs
index 10c02d5..fb2bed0 100644
--- a/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs
+++ b/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs
@@ -14,6 +14,10 @@ use super::cl::constants::*;
 use super::cl::hash::get_hash_as_int;
 use super::cl::helpers::*;
 
+// Size of the challenge when it is a hash, and by how much blindings exceed what they blind
+const CHALLENGE_BITS: usize = 256;
+const STATISTICAL_ZK_BITS: usize = 80;
+
 // g and h correspond to the symbols with same name in paper "Practical Verifiable Encryption...."
 #[derive(Serialize, Deserialize)]
 pub struct PaillierGroup {
@@ -123,6 +127,13 @@ impl PaillierGroup {
         self.n_by_4.rand_range()
     }
 
+    /// Return a random element to blind the product of an element from `rand_for_enc` and a challenge.
+    /// It has to be bigger than the product by enough for the difference to tell nothing about it.
+    pub fn rand_for_proof(&self) -> UrsaCryptoResult<BigNumber> {
+        let n_by_4_bits = self.n_by_4.num_bits()? as usize;
+        BigNumber::rand(n_by_4_bits + CHALLENGE_BITS + STATISTICAL_ZK_BITS)
+    }
+
     /// if a > (n^2)/2 then n^2 - a else a
     /// section 3.2 of paper
     pub fn abs(
@@ -314,7 +325,7 @@ pub fn encrypt_and_prove_phase_1(
     // random value for ciphertext
     let r = paillier_group.rand_for_enc()?;
     // random value for commitment
-    let r_tilde = paillier_group.rand_for_enc()?;
+    let r_tilde = paillier_group.rand_for_proof()?;
     let ciphertext = encrypt_using_random_value(&r, messages, label, pub_key)?;
     let hash = hash(&ciphertext.u, &ciphertext.e, label)?;
     let ciphertext_t_values = ciphertext_t_values(&r_tilde, &blindings, &hash, pub_key)?;
-- 
2.43.0


From 5e42b8a22bd514f2c65517ee3da0a954edfa9ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:46 +0000
Subject: [PATCH 64/85] fix: refuse to encrypt messages that do not decrypt to
 themselves

---
 .../verifiable_encryption/cs_verifiable_encryption.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs b/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs
index fb2bed0..ede688a 100644
--- a/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs
+++ b/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs
@@ -436,6 +436,17 @@ fn encrypt_using_random_value(
 ) -> UrsaCryptoResult<CSCiphertext> {
     let mut ctx = BigNumber::new_context()?;
 
+    // Decryption gives the message modulo n
+    if messages
+        .iter()
+        .any(|m| m.is_negative() || *m >= pub_key.n)
+    {
+        return Err(UrsaCryptoError::from_msg(
+            UrsaCryptoErrorKind::InvalidStructure,
+            "messages should not be negative and should be less than n",
+        ));
+    }
+
     let u = compute_u(random_value, pub_key, &mut ctx)?;
     let e = compute_e(messages, random_value, pub_key, &mut ctx)?;
     let hash = hash(&u, &e, label)?;
-- 
2.43.0


From baf42bf546414fe168e8df6ffbbec70d42caa039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:11 +0000
Subject: [PATCH 65/85] fix: refuse ciphertexts that are negated, as they
 decrypt like the original

---
 .../cs_verifiable_encryption.rs                 | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs b/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs
index ede688a..d01c1c9 100644
--- a/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs
+++ b/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs
@@ -219,6 +219,7 @@ pub fn decrypt(
 
     let paillier_group = &pub_key.paillier_group;
 
+    check_reduced(ciphertext, pub_key)?;
     // Check if abs(v) == v?
     if ciphertext.v != paillier_group.abs(&ciphertext.v, Some(&mut ctx))? {
         return Err(UrsaCryptoError::from_msg(
@@ -383,6 +384,7 @@ pub fn reconstruct_blindings_ciphertext(
     let mut ctx = BigNumber::new_context()?;
 
     // Decryption would refuse the ciphertext otherwise
+    check_reduced(ciphertext, pub_key)?;
     if ciphertext.v != paillier_group.abs(&ciphertext.v, Some(&mut ctx))? {
         return Err(UrsaCryptoError::from_msg(
             UrsaCryptoErrorKind::InvalidStructure,
@@ -519,6 +521,21 @@ fn compute_v(
     }
 }
 
+/// The hash does not tell `u` or `e` from its negative, which would decrypt as well.
+fn check_reduced(ciphertext: &CSCiphertext, pub_key: &CSEncPubkey) -> UrsaCryptoResult<()> {
+    let modulus = &pub_key.paillier_group.modulus;
+    if std::iter::once(&ciphertext.u)
+        .chain(ciphertext.e.iter())
+        .any(|x| x.is_negative() || x >= modulus)
+    {
+        return Err(UrsaCryptoError::from_msg(
+            UrsaCryptoErrorKind::InvalidStructure,
+            "ciphertext is not reduced modulo n^2",
+        ));
+    }
+    Ok(())
+}
+
 fn hash(u: &BigNumber, e: &[BigNumber], label: &[u8]) -> UrsaCryptoResult<BigNumber> {
     let mut arr = vec![u.to_bytes()?];
     for b in e {
-- 
2.43.0


From 19d0a2c72a894a493a81839aed0ee0dc624190ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:09 +0000
Subject: [PATCH 66/85] fix: responses leak the numbers that hide attributes in
 requests and predicate proofs

---
 libursa/src/cl/constants.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libursa/src/cl/constants.rs b/libursa/src/cl/constants.rs
index 273ff99..b0c92c9 100644
--- a/libursa/src/cl/constants.rs
+++ b/libursa/src/cl/constants.rs
@@ -11,8 +11,10 @@ pub const LARGE_ETILDE: usize = 456;
 pub const LARGE_VTILDE: usize = 3060;
 pub const LARGE_UTILDE: usize = 592;
 pub const LARGE_MTILDE: usize = 593;
-pub const LARGE_VPRIME_TILDE: usize = 673;
-pub const LARGE_RTILDE: usize = 672;
+// Blindings of the numbers of LARGE_VPRIME bits in requests for credentials and in predicate proofs:
+// longer than the number and the challenge (256 bits) together by 80 bits
+pub const LARGE_VPRIME_TILDE: usize = 2465;
+pub const LARGE_RTILDE: usize = 2464;
 pub const ITERATION: usize = 4;
 /*
   LARGE_M1_TILDE: now it differs from the paper v0.3, but author of the paper,
-- 
2.43.0


From 41acac0452330a0bdbe224dd7ea2c4b1a09aa5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:09 +0000
Subject: [PATCH 67/85] fix: presentations with revocation reveal m2, which
 links them

---
 libursa/src/cl/prover.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/libursa/src/cl/prover.rs b/libursa/src/cl/prover.rs
index 04179cc..52b0830 100644
--- a/libursa/src/cl/prover.rs
+++ b/libursa/src/cl/prover.rs
@@ -1,5 +1,5 @@
 use super::helpers::*;
-use bn::BigNumber;
+use bn::{BigNumber, BIGNUMBER_1};
 use cl::constants::*;
 use cl::hash::get_hash_as_int;
 use cl::*;
@@ -990,7 +990,15 @@ impl ProofBuilder {
 
             self.c_list.extend_from_slice(&proof.as_c_list()?);
             self.tau_list.extend_from_slice(&proof.as_tau_list()?);
-            m2_tilde = Some(group_element_to_bignum(&proof.tau_list_params.m2)?);
+            // The response in the primary proof is an integer, and an element of the field is too short
+            // to hide m2 in it: take a random integer that is this element modulo the order of the group
+            let order = group_element_to_bignum(&bignum_to_group_element(&BIGNUMBER_1)?.mod_neg()?)?
+                .add(&BIGNUMBER_1)?;
+            m2_tilde = Some(
+                bn_rand(LARGE_MVECT)?
+                    .mul(&order, None)?
+                    .add(&group_element_to_bignum(&proof.tau_list_params.m2)?)?,
+            );
             non_revoc_init_proof = Some(proof);
         }
 
-- 
2.43.0


From 12e490526756656791ab1b7fb0d44559aaa1e52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:09 +0000
Subject: [PATCH 68/85] fix: the proof about an issuer's key reveals a part of
 the secret exponents

---
 libursa/src/cl/issuer.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/libursa/src/cl/issuer.rs b/libursa/src/cl/issuer.rs
index 17df576..dd66eb1 100644
--- a/libursa/src/cl/issuer.rs
+++ b/libursa/src/cl/issuer.rs
@@ -925,16 +925,23 @@ impl Issuer {
 
         let c = get_hash_as_int(&[values])?;
 
+        // The responses are reduced by the order of the group, or they would show a part of the secrets
+        let order = cred_pr_priv_key
+            .p
+            .mul(&cred_pr_priv_key.q, Some(&mut ctx))?;
+
         let xz_cap = c
             .mul(&cred_pr_pub_key_meta.xz, Some(&mut ctx))?
-            .add(&xz_tilda)?;
+            .add(&xz_tilda)?
+            .modulus(&order, Some(&mut ctx))?;
 
         let mut xr_cap: Vec<(String, BigNumber)> = Vec::new();
         for key in ordered_attrs {
             let xr_tilda_value = &xr_tilda[&key];
             let val = c
                 .mul(&cred_pr_pub_key_meta.xr[&key], Some(&mut ctx))?
-                .add(&xr_tilda_value)?;
+                .add(&xr_tilda_value)?
+                .modulus(&order, Some(&mut ctx))?;
             xr_cap.push((key, val));
         }
 
-- 
2.43.0


From a2ad4e5824edd8251b418a9be5cedd9494705eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:55 +0000
Subject: [PATCH 69/85] fix: the responses for m2 in both parts of a
 presentation give m2 away together

---
 libursa/src/cl/prover.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libursa/src/cl/prover.rs b/libursa/src/cl/prover.rs
index 52b0830..fa32897 100644
--- a/libursa/src/cl/prover.rs
+++ b/libursa/src/cl/prover.rs
@@ -991,13 +991,16 @@ impl ProofBuilder {
             self.c_list.extend_from_slice(&proof.as_c_list()?);
             self.tau_list.extend_from_slice(&proof.as_tau_list()?);
             // The response in the primary proof is an integer, and an element of the field is too short
-            // to hide m2 in it: take a random integer that is this element modulo the order of the group
+            // to hide m2 in it: take a random integer. It is the negation of the element modulo the order
+            // of the group, as the challenge has the opposite sign in the response of the other part
             let order = group_element_to_bignum(&bignum_to_group_element(&BIGNUMBER_1)?.mod_neg()?)?
                 .add(&BIGNUMBER_1)?;
             m2_tilde = Some(
                 bn_rand(LARGE_MVECT)?
                     .mul(&order, None)?
-                    .add(&group_element_to_bignum(&proof.tau_list_params.m2)?)?,
+                    .add(&group_element_to_bignum(
+                        &proof.tau_list_params.m2.mod_neg()?,
+                    )?)?,
             );
             non_revoc_init_proof = Some(proof);
         }
-- 
2.43.0


From 3729c4f398c1d2e58f2db7d0476c963a98dc60cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:27 +0000
Subject: [PATCH 70/85] fix: a NUL in the text of a number panicked

---
 libursa/src/bn/openssl.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/libursa/src/bn/openssl.rs b/libursa/src/bn/openssl.rs
index a3b6d2b..873fec8 100644
--- a/libursa/src/bn/openssl.rs
+++ b/libursa/src/bn/openssl.rs
@@ -144,15 +144,28 @@ impl BigNumber {
     }
 
     pub fn from_dec(dec: &str) -> UrsaCryptoResult<BigNumber> {
+        BigNumber::_check_no_nul(dec)?;
         let bn = BigNum::from_dec_str(dec)?;
         Ok(BigNumber { openssl_bn: bn })
     }
 
     pub fn from_hex(hex: &str) -> UrsaCryptoResult<BigNumber> {
+        BigNumber::_check_no_nul(hex)?;
         let bn = BigNum::from_hex_str(hex)?;
         Ok(BigNumber { openssl_bn: bn })
     }
 
+    // OpenSSL takes C strings, and its wrapper panics on a string that is none
+    fn _check_no_nul(s: &str) -> UrsaCryptoResult<()> {
+        if s.contains('\0') {
+            return Err(err_msg(
+                UrsaCryptoErrorKind::InvalidStructure,
+                "Invalid string representation of BigNumber",
+            ));
+        }
+        Ok(())
+    }
+
     pub fn from_bytes(bytes: &[u8]) -> UrsaCryptoResult<BigNumber> {
         let bn = BigNum::from_slice(bytes)?;
         Ok(BigNumber { openssl_bn: bn })
-- 
2.43.0


From 05b04500dce58be72d8740a0424b4b41ee62ab61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:52 +0000
Subject: [PATCH 71/85] fix: a verifier refuses a predicate about a revealed
 attribute

The prover refuses such requests, but the verifier compared the predicate's response with an
entry for the attribute that the equality proof does not cover: a dishonest prover could show
age 28 and prove age >= 40.
---
 libursa/src/cl/verifier.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libursa/src/cl/verifier.rs b/libursa/src/cl/verifier.rs
index dc72550..29109d4 100644
--- a/libursa/src/cl/verifier.rs
+++ b/libursa/src/cl/verifier.rs
@@ -456,7 +456,13 @@ impl ProofVerifier {
         )?;
 
         for ne_proof in primary_proof.ne_proofs.iter() {
-            if primary_proof.eq_proof.m.get(&ne_proof.predicate.attr_name) != Some(&ne_proof.mj) {
+            // The value of a revealed attribute isn't among those that the equality proof is about
+            if sub_proof_request
+                .revealed_attrs
+                .contains(&ne_proof.predicate.attr_name)
+                || primary_proof.eq_proof.m.get(&ne_proof.predicate.attr_name)
+                    != Some(&ne_proof.mj)
+            {
                 return Err(err_msg(
                     UrsaCryptoErrorKind::ProofRejected,
                     format!(
-- 
2.43.0


From d600f4543774c1e1576f2f33ea1c4fae85641edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:31 +0000
Subject: [PATCH 72/85] fix: the C API read and wrote a revocation registry
 delta as another type

---
 libursa/src/ffi/cl/issuer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libursa/src/ffi/cl/issuer.rs b/libursa/src/ffi/cl/issuer.rs
index 1a3dc3f..ad1a658 100644
--- a/libursa/src/ffi/cl/issuer.rs
+++ b/libursa/src/ffi/cl/issuer.rs
@@ -1687,7 +1687,7 @@ pub extern "C" fn ursa_cl_revocation_registry_delta_to_json(
 
     check_useful_c_reference!(
         revocation_registry_delta,
-        SignatureCorrectnessProof,
+        RevocationRegistryDelta,
         ErrorCode::CommonInvalidParam1
     );
     check_useful_c_ptr!(
@@ -1756,7 +1756,7 @@ pub extern "C" fn ursa_cl_revocation_registry_delta_from_json(
         revocation_registry_delta_json
     );
 
-    let res = match serde_json::from_str::<SignatureCorrectnessProof>(
+    let res = match serde_json::from_str::<RevocationRegistryDelta>(
         &revocation_registry_delta_json,
     ) {
         Ok(revocation_registry_delta) => {
-- 
2.43.0


From d29b17f563f80c548a4e9f0e3638e4c2cb574815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:31 +0000
Subject: [PATCH 73/85] fix: the C API gave out a merged revocation registry
 delta without contents

---
 libursa/src/ffi/cl/issuer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libursa/src/ffi/cl/issuer.rs b/libursa/src/ffi/cl/issuer.rs
index ad1a658..9fea76a 100644
--- a/libursa/src/ffi/cl/issuer.rs
+++ b/libursa/src/ffi/cl/issuer.rs
@@ -1985,15 +1985,17 @@ pub extern "C" fn ursa_cl_issuer_merge_revocation_registry_deltas(
         RevocationRegistryDelta,
         ErrorCode::CommonInvalidParam2
     );
+    check_useful_c_ptr!(merged_revoc_reg_delta_p, ErrorCode::CommonInvalidParam3);
 
     trace!("ursa_cl_issuer_merge_revocation_registry_deltas: entities: revoc_reg_delta: {:?}, other_revoc_reg_delta: {:?}",
            revoc_reg_delta, other_revoc_reg_delta);
 
     let res = match revoc_reg_delta.merge(other_revoc_reg_delta) {
         Ok(_) => {
-            trace!("ursa_cl_issuer_merge_revocation_registry_deltas: merged_revoc_reg_delta: ()");
+            trace!("ursa_cl_issuer_merge_revocation_registry_deltas: merged_revoc_reg_delta: {:?}", revoc_reg_delta);
             unsafe {
-                *merged_revoc_reg_delta_p = Box::into_raw(Box::new(())) as *const c_void;
+                *merged_revoc_reg_delta_p =
+                    Box::into_raw(Box::new(revoc_reg_delta.clone())) as *const c_void;
                 trace!("ursa_cl_issuer_merge_revocation_registry_deltas: *merged_revoc_reg_delta_p: {:?}", *merged_revoc_reg_delta_p);
             }
             ErrorCode::Success
-- 
2.43.0


From 95e0fa6b414c98e97dbed1f18f4459898c690344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:31 +0000
Subject: [PATCH 74/85] fix: null pointers for outputs of the C API were
 written to

---
 libursa/src/ffi/cl/issuer.rs | 3 +++
 libursa/src/ffi/cl/mod.rs    | 1 +
 libursa/src/ffi/cl/prover.rs | 1 +
 3 files changed, 5 insertions(+)

diff --git a/libursa/src/ffi/cl/issuer.rs b/libursa/src/ffi/cl/issuer.rs
index 9fea76a..958c5ab 100644
--- a/libursa/src/ffi/cl/issuer.rs
+++ b/libursa/src/ffi/cl/issuer.rs
@@ -1845,6 +1845,7 @@ pub extern "C" fn ursa_revocation_registry_delta_from_parts(
         ErrorCode::CommonInvalidParam5,
         ErrorCode::CommonInvalidParam6
     );
+    check_useful_c_ptr!(rev_reg_delta_p, ErrorCode::CommonInvalidParam7);
 
     trace!("ursa_revocation_registry_delta_from_parts: >>> rev_reg_from: {:?}, rev_reg_to: {:?}, issued: {:?}, revoked: {:?}",
            rev_reg_from, rev_reg_to, issued, revoked);
@@ -1895,6 +1896,7 @@ pub extern "C" fn ursa_cl_issuer_revoke_credential(
     put_tail {:?}, rev_reg_delta_p {:?}", rev_reg, max_cred_num, rev_idx, ctx_tails, take_tail, put_tail, rev_reg_delta_p);
 
     check_useful_mut_c_reference!(rev_reg, RevocationRegistry, ErrorCode::CommonInvalidParam1);
+    check_useful_c_ptr!(rev_reg_delta_p, ErrorCode::CommonInvalidParam7);
 
     trace!(
         "ursa_cl_issuer_revoke_credential: entities: rev_reg: {:?}",
@@ -1941,6 +1943,7 @@ pub extern "C" fn ursa_cl_issuer_recovery_credential(
     put_tail {:?}, rev_reg_delta_p {:?}", rev_reg, max_cred_num, rev_idx, ctx_tails, take_tail, put_tail, rev_reg_delta_p);
 
     check_useful_mut_c_reference!(rev_reg, RevocationRegistry, ErrorCode::CommonInvalidParam1);
+    check_useful_c_ptr!(rev_reg_delta_p, ErrorCode::CommonInvalidParam7);
 
     trace!(
         "ursa_cl_issuer_recovery_credential: entities: rev_reg: {:?}",
diff --git a/libursa/src/ffi/cl/mod.rs b/libursa/src/ffi/cl/mod.rs
index 537e239..cd72fac 100644
--- a/libursa/src/ffi/cl/mod.rs
+++ b/libursa/src/ffi/cl/mod.rs
@@ -117,6 +117,7 @@ pub extern "C" fn ursa_cl_witness_new(
         RevocationRegistryDelta,
         ErrorCode::CommonInvalidParam3
     );
+    check_useful_c_ptr!(witness_p, ErrorCode::CommonInvalidParam8);
 
     let rta = FFITailsAccessor::new(ctx_tails, take_tail, put_tail);
     let res = match Witness::new(
diff --git a/libursa/src/ffi/cl/prover.rs b/libursa/src/ffi/cl/prover.rs
index 36caaf8..14eb809 100644
--- a/libursa/src/ffi/cl/prover.rs
+++ b/libursa/src/ffi/cl/prover.rs
@@ -868,6 +868,7 @@ pub extern "C" fn ursa_cl_prover_get_credential_revocation_index(
         CredentialSignature,
         ErrorCode::CommonInvalidParam1
     );
+    check_useful_c_ptr!(cred_rev_indx, ErrorCode::CommonInvalidParam2);
 
     trace!(
         "ursa_cl_prover_get_credential_revocation_index: >>> credential_signature: {:?}",
-- 
2.43.0


From 2429838681c84ae7a956faa5b8c26a6c987afd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:31 +0000
Subject: [PATCH 75/85] fix: a refused ed25519 signature left the error of the
 C API unset

---
 libursa/src/ffi/signatures/ed25519.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libursa/src/ffi/signatures/ed25519.rs b/libursa/src/ffi/signatures/ed25519.rs
index afa5da3..53ad379 100644
--- a/libursa/src/ffi/signatures/ed25519.rs
+++ b/libursa/src/ffi/signatures/ed25519.rs
@@ -283,8 +283,8 @@ pub extern "C" fn ursa_ed25519_verify(
         &pk,
     ) {
         Ok(b) => {
+            *err = ExternError::success();
             if b {
-                *err = ExternError::success();
                 1
             } else {
                 0
-- 
2.43.0


From b2d8a2c0076a5fef40d320be07264e70a77018d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:31 +0000
Subject: [PATCH 76/85] fix: a null pointer in an array of the C API was read

---
 libursa/src/utils/ctypes.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libursa/src/utils/ctypes.rs b/libursa/src/utils/ctypes.rs
index d4f9a2c..8c48b83 100644
--- a/libursa/src/utils/ctypes.rs
+++ b/libursa/src/utils/ctypes.rs
@@ -113,6 +113,14 @@ macro_rules! check_useful_c_reference_array {
             return $err2;
         }
 
+        if unsafe { slice::from_raw_parts($ptrs, $ptrs_len) }
+            .iter()
+            .any(|ptr| ptr.is_null())
+        {
+            set_current_error(&err_msg($err1.into(), "Invalid pointer has been passed"));
+            return $err1;
+        }
+
         let $ptrs: Vec<&$type> = unsafe { slice::from_raw_parts($ptrs, $ptrs_len) }
             .iter()
             .map(|ptr| unsafe { &*(*ptr as *const $type) })
-- 
2.43.0


From c799dcbbcb69fd581054568657caabd8e318b8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:44 +0000
Subject: [PATCH 77/85] fix: the name of an algorithm that is null or not UTF-8
 aborted the process

---
 libursa/src/ffi/encryption/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libursa/src/ffi/encryption/mod.rs b/libursa/src/ffi/encryption/mod.rs
index a507e71..3c74b60 100644
--- a/libursa/src/ffi/encryption/mod.rs
+++ b/libursa/src/ffi/encryption/mod.rs
@@ -39,7 +39,7 @@ macro_rules! ffi_encryption_impl {
             let key = key.to_vec();
             let aad = aad.to_vec();
             let nonce = nonce.to_opt_vec();
-            let algorithm = algorithm.as_str();
+            let algorithm = algorithm.as_opt_str().unwrap_or("");
             let input = input.to_vec();
             let cipher_res = EncryptorType::from_str(algorithm);
             let cipher;
-- 
2.43.0


From 2f13ca3d9429b9b0742f4d3c2d77bf1ec59dc848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:00 +0000
Subject: [PATCH 78/85] fix: null pointers for outputs of the C API of short
 signatures were written to

---
 libursa/src/ffi/bls.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libursa/src/ffi/bls.rs b/libursa/src/ffi/bls.rs
index b536685..0eada8b 100644
--- a/libursa/src/ffi/bls.rs
+++ b/libursa/src/ffi/bls.rs
@@ -167,6 +167,7 @@ pub extern "C" fn ursa_bls_sign_key_new(
         ErrorCode::CommonInvalidParam1,
         ErrorCode::CommonInvalidParam2
     );
+    check_useful_c_ptr!(sign_key_p, ErrorCode::CommonInvalidParam3);
 
     trace!("ursa_bls_sign_key_new: seed: {:?}", secret!(&seed));
 
@@ -325,6 +326,7 @@ pub extern "C" fn ursa_bls_ver_key_new(
 
     check_useful_c_reference!(gen, Generator, ErrorCode::CommonInvalidParam1);
     check_useful_c_reference!(sign_key, SignKey, ErrorCode::CommonInvalidParam2);
+    check_useful_c_ptr!(ver_key_p, ErrorCode::CommonInvalidParam3);
 
     trace!(
         "ursa_bls_ver_key_new: gen: {:?}, sign_key: {:?}",
@@ -475,6 +477,7 @@ pub extern "C" fn ursa_bls_pop_new(
 
     check_useful_c_reference!(ver_key, VerKey, ErrorCode::CommonInvalidParam1);
     check_useful_c_reference!(sign_key, SignKey, ErrorCode::CommonInvalidParam2);
+    check_useful_c_ptr!(pop_p, ErrorCode::CommonInvalidParam3);
 
     trace!(
         "ursa_bls_pop_new: ver_key: {:?}, sign_key: {:?}",
-- 
2.43.0


From 10ad57f2ae67f86bc90d0cb99218d0985151bf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:31 +0000
Subject: [PATCH 79/85] fix: the private key of a revocation registry was
 logged with its tails generator

---
 libursa/src/cl/issuer.rs     |  2 +-
 libursa/src/ffi/cl/issuer.rs | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/libursa/src/cl/issuer.rs b/libursa/src/cl/issuer.rs
index dd66eb1..b76c064 100644
--- a/libursa/src/cl/issuer.rs
+++ b/libursa/src/cl/issuer.rs
@@ -167,7 +167,7 @@ impl Issuer {
         );
 
         trace!("Issuer::new_revocation_registry_def: <<< rev_key_pub: {:?}, rev_key_priv: {:?}, rev_reg: {:?}, rev_tails_generator: {:?}",
-               rev_key_pub, secret!(&rev_key_priv), rev_reg, rev_tails_generator);
+               rev_key_pub, secret!(&rev_key_priv), rev_reg, secret!(&rev_tails_generator));
 
         Ok((rev_key_pub, rev_key_priv, rev_reg, rev_tails_generator))
     }
diff --git a/libursa/src/ffi/cl/issuer.rs b/libursa/src/ffi/cl/issuer.rs
index 958c5ab..7bc215e 100644
--- a/libursa/src/ffi/cl/issuer.rs
+++ b/libursa/src/ffi/cl/issuer.rs
@@ -569,7 +569,7 @@ pub extern "C" fn ursa_cl_issuer_new_revocation_registry_def(
     ) {
         Ok((rev_key_pub, rev_key_priv, rev_reg, rev_tails_generator)) => {
             trace!("ursa_cl_issuer_new_revocation_registry_def: rev_key_pub_p: {:?}, rev_key_priv: {:?}, rev_reg: {:?}, rev_tails_generator: {:?}",
-                   rev_key_pub_p, secret!(&rev_key_priv), rev_reg, rev_tails_generator);
+                   rev_key_pub_p, secret!(&rev_key_priv), rev_reg, secret!(&rev_tails_generator));
             unsafe {
                 *rev_key_pub_p = Box::into_raw(Box::new(rev_key_pub)) as *const c_void;
                 *rev_key_priv_p = Box::into_raw(Box::new(rev_key_priv)) as *const c_void;
@@ -1016,14 +1016,14 @@ pub extern "C" fn ursa_cl_revocation_tails_generator_to_json(
 
     trace!(
         "ursa_cl_revocation_tails_generator_to_json: entity >>> rev_tails_generator: {:?}",
-        rev_tails_generator
+        secret!(&rev_tails_generator)
     );
 
     let res = match serde_json::to_string(rev_tails_generator) {
         Ok(rev_tails_generator_json) => {
             trace!(
                 "ursa_cl_revocation_tails_generator_to_json: rev_tails_generator_json: {:?}",
-                rev_tails_generator_json
+                secret!(&rev_tails_generator_json)
             );
             unsafe {
                 let rev_tails_generator_json = string_to_cstring(rev_tails_generator_json);
@@ -1071,14 +1071,14 @@ pub extern "C" fn ursa_cl_revocation_tails_generator_from_json(
 
     trace!(
         "ursa_cl_revocation_tails_generator_from_json: entity: rev_tails_generator_json: {:?}",
-        rev_tails_generator_json
+        secret!(&rev_tails_generator_json)
     );
 
     let res = match serde_json::from_str::<RevocationTailsGenerator>(&rev_tails_generator_json) {
         Ok(rev_tails_generator) => {
             trace!(
                 "ursa_cl_revocation_tails_generator_from_json: rev_tails_generator: {:?}",
-                rev_tails_generator
+                secret!(&rev_tails_generator)
             );
             unsafe {
                 *rev_tails_generator_p =
@@ -1124,7 +1124,7 @@ pub extern "C" fn ursa_cl_revocation_tails_generator_free(
         unsafe { Box::from_raw(rev_tails_generator as *mut RevocationTailsGenerator) };
     trace!(
         "ursa_cl_revocation_tails_generator_free: entity: rev_tails_generator: {:?}",
-        rev_tails_generator
+        secret!(&rev_tails_generator)
     );
 
     let res = ErrorCode::Success;
-- 
2.43.0


From bd615e57b19b652940e1b8cffb368563605e6894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:31 +0000
Subject: [PATCH 80/85] fix: ursa_bls_pop_new logged the sign key

---
 libursa/src/ffi/bls.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libursa/src/ffi/bls.rs b/libursa/src/ffi/bls.rs
index 0eada8b..90e41a5 100644
--- a/libursa/src/ffi/bls.rs
+++ b/libursa/src/ffi/bls.rs
@@ -482,7 +482,7 @@ pub extern "C" fn ursa_bls_pop_new(
     trace!(
         "ursa_bls_pop_new: ver_key: {:?}, sign_key: {:?}",
         ver_key,
-        sign_key
+        secret!(sign_key)
     );
 
     let res = match ProofOfPossession::new(ver_key, sign_key) {
-- 
2.43.0


From f44a2526b8f9ace88372c84cf6dbff78a3f8b787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:38 +0000
Subject: [PATCH 81/85] fix: a holder took a signature with a prime exponent
 outside the agreed range

---
 libursa/src/cl/prover.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libursa/src/cl/prover.rs b/libursa/src/cl/prover.rs
index fa32897..1cbd1b6 100644
--- a/libursa/src/cl/prover.rs
+++ b/libursa/src/cl/prover.rs
@@ -687,7 +687,11 @@ impl Prover {
 
         let mut ctx = BigNumber::new_context()?;
 
-        if !p_cred_sig.e.is_prime(Some(&mut ctx))? {
+        // The exponent is a prime of the agreed range: proofs about any other would not be accepted
+        if p_cred_sig.e < *LARGE_E_START_VALUE
+            || p_cred_sig.e > *LARGE_E_END_RANGE_VALUE
+            || !p_cred_sig.e.is_prime(Some(&mut ctx))?
+        {
             return Err(err_msg(
                 UrsaCryptoErrorKind::InvalidStructure,
                 "Invalid Signature correctness proof",
-- 
2.43.0


From 6bd4c4707d6220e52088f8646f588a985202f3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:16 +0000
Subject: [PATCH 82/85] fix: batch verification of a delegation chain let
 errors in two links cancel

The messages of a link at an even level were weighted by the powers of the
random value of the first link instead of their own, so that a chain whose
first link is for someone else's key verified when a later link made up for it.
---
 libzmix/src/signatures/delg_cred_cdd/groth_sig.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libzmix/src/signatures/delg_cred_cdd/groth_sig.rs b/libzmix/src/signatures/delg_cred_cdd/groth_sig.rs
index 15ace80..fa97b23 100644
--- a/libzmix/src/signatures/delg_cred_cdd/groth_sig.rs
+++ b/libzmix/src/signatures/delg_cred_cdd/groth_sig.rs
@@ -520,7 +520,7 @@ impl Groth2Sig {
             temp.push(var_time_mul_scl_mul_with_same_field_element!(
                 G1,
                 G1LookupTable,
-                r_vec[i + 1],
+                r_vec[r_vec_offset + i + 1],
                 &setup_params.g1,
                 &verkey.0,
                 &negR
-- 
2.43.0


From 549f6b65d85066bd2e83be85031bcf8930df4549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:04 +0000
Subject: [PATCH 83/85] fix: a malformed BLS signature or key from JavaScript
 trapped instead of an error

---
 libursa/src/wasm/bls.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/libursa/src/wasm/bls.rs b/libursa/src/wasm/bls.rs
index deadd91..c59f182 100644
--- a/libursa/src/wasm/bls.rs
+++ b/libursa/src/wasm/bls.rs
@@ -103,8 +103,10 @@ pub struct MultiSignature(bls::MultiSignature);
 #[wasm_bindgen]
 impl MultiSignature {
     pub fn new(signatures: Vec<JsValue>) -> Result<MultiSignature, JsValue> {
-        let sigs: Vec<bls::Signature> =
-            signatures.iter().map(|x| x.into_serde().unwrap()).collect();
+        let sigs = signatures
+            .iter()
+            .map(convert_from_js)
+            .collect::<Result<Vec<bls::Signature>, _>>()?;
         Ok(MultiSignature(bls::MultiSignature::new(
             sigs.iter().collect::<Vec<_>>().as_slice(),
         )?))
@@ -169,10 +171,10 @@ impl Bls {
         ver_keys: Vec<JsValue>,
         gen: &Generator,
     ) -> Result<bool, JsValue> {
-        let vks: Vec<bls::VerKey> = ver_keys
+        let vks = ver_keys
             .iter()
-            .map(|x| convert_from_js(x).unwrap())
-            .collect();
+            .map(convert_from_js)
+            .collect::<Result<Vec<bls::VerKey>, _>>()?;
         Ok(maperr!(bls::Bls::verify_multi_sig(
             &multi_sig.0,
             message,
-- 
2.43.0


From d476dcfb3520b9ca297c98ed21da39276386c83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:07 +0000
Subject: [PATCH 84/85] fix: a fresh encryption key stayed behind in freed
 memory

---
 libursa/src/encryption/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libursa/src/encryption/mod.rs b/libursa/src/encryption/mod.rs
index 14f61f3..0f0a347 100644
--- a/libursa/src/encryption/mod.rs
+++ b/libursa/src/encryption/mod.rs
@@ -3,6 +3,7 @@
 use aead::generic_array::{ArrayLength, GenericArray};
 use aead::Error;
 use rand::{rngs::OsRng, RngCore};
+use zeroize::Zeroize;
 
 pub mod symm;
 
@@ -14,7 +15,8 @@ pub fn random_vec(bytes: usize) -> Result<Vec<u8>, Error> {
 }
 
 pub fn random_bytes<T: ArrayLength<u8>>() -> Result<GenericArray<u8, T>, Error> {
-    Ok(GenericArray::clone_from_slice(
-        random_vec(T::to_usize())?.as_slice(),
-    ))
+    let mut bytes = random_vec(T::to_usize())?;
+    let value = GenericArray::clone_from_slice(bytes.as_slice());
+    bytes.zeroize();
+    Ok(value)
 }
-- 
2.43.0


From 72d61d9975098ebec27bb3064924f3677ed039d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:07 +0000
Subject: [PATCH 85/85] fix: the seed of a BLS key stayed behind in freed
 memory

---
 libursa/src/signatures/bls.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libursa/src/signatures/bls.rs b/libursa/src/signatures/bls.rs
index e66391d..a6ba0b7 100644
--- a/libursa/src/signatures/bls.rs
+++ b/libursa/src/signatures/bls.rs
@@ -15,6 +15,7 @@ use keys::{KeyGenOption, PrivateKey as UrsaPrivateKey, PublicKey as UrsaPublicKe
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 use sha2::Sha256;
+use zeroize::Zeroize;
 
 use CryptoError;
 
@@ -90,6 +91,7 @@ macro_rules! bls_impl {
                             ikm[..seed.len()].copy_from_slice(seed); // IKM || I2OSP(0, 1)
                             let mut okm = [0u8; PRIVATE_KEY_SIZE];
                             let h = hkdf::Hkdf::<Sha256>::new(Some(&salt[..]), &ikm);
+                            ikm.zeroize();
                             h.expand(&info[..], &mut okm).map_err(|err| {
                                 CryptoError::KeyGenError(format!(
                                     "Failed to generate keypair: {}",
-- 
2.43.0

