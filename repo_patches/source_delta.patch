From 1a9d1c6925f2ed3b84270d956634daf2651c93c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:39 +0000
Subject: [PATCH 01/23] fix: reject short and non-canonical scalars when
 deserialising instead of panicking or reducing them

---
 packages/Spartan-secq/src/scalar/scalar.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/packages/Spartan-secq/src/scalar/scalar.rs b/packages/Spartan-secq/src/scalar/scalar.rs
index 95116fc..baeede7 100755
--- a/packages/Spartan-secq/src/scalar/scalar.rs
+++ b/packages/Spartan-secq/src/scalar/scalar.rs
@@ -222,24 +222,26 @@ impl<'de> Visitor<'de> for U64ArrayVisitor {
   type Value = Scalar;
 
   fn expecting(&self, formatter: &mut std::fmt::Formatter) -> std::fmt::Result {
-    formatter.write_str("a sequence of 4 u64 values")
+    formatter.write_str("the 32 bytes of a canonical field element")
   }
 
   fn visit_seq<A>(self, mut seq: A) -> Result<Self::Value, A::Error>
   where
     A: serde::de::SeqAccess<'de>,
   {
-    let mut result = [0u64; 4];
+    let mut bytes = [0u8; 32];
 
-    for i in 0..4 {
-      let mut val: u64 = 0;
-      for j in 0..8 {
-        val += (seq.next_element::<u8>().unwrap().unwrap() as u64) * 256u64.pow(j)
-      }
-      result[i] = val;
+    for (i, byte) in bytes.iter_mut().enumerate() {
+      *byte = seq
+        .next_element::<u8>()?
+        .ok_or_else(|| serde::de::Error::invalid_length(i, &self))?;
+    }
+    if seq.next_element::<u8>()?.is_some() {
+      return Err(serde::de::Error::invalid_length(33, &self));
     }
 
-    Ok(Scalar::from_raw(result))
+    Option::from(Scalar::from_bytes(&bytes))
+      .ok_or_else(|| serde::de::Error::custom("non-canonical field element"))
   }
 }
 
-- 
2.43.0


From cf161db1d7dff2fe52475c1f38dcb9f94189f1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:39 +0000
Subject: [PATCH 02/23] fix: curve field elements serialise to, and deserialise
 only from, their canonical 32 bytes

---
 packages/secq256k1/src/field/field_secp.rs | 22 ++++++++++++----------
 packages/secq256k1/src/field/field_secq.rs | 22 ++++++++++++----------
 2 files changed, 24 insertions(+), 20 deletions(-)

diff --git a/packages/secq256k1/src/field/field_secp.rs b/packages/secq256k1/src/field/field_secp.rs
index 80becd1..34e8e79 100644
--- a/packages/secq256k1/src/field/field_secp.rs
+++ b/packages/secq256k1/src/field/field_secp.rs
@@ -283,7 +283,7 @@ impl SqrtRatio for FieldElement {
 
 impl Serialize for FieldElement {
     fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
-        let values: Vec<u8> = self.0.iter().map(|v| v.to_le_bytes()).flatten().collect();
+        let values = self.to_bytes();
         let mut seq = serializer.serialize_seq(Some(values.len()))?;
         for val in values.iter() {
             seq.serialize_element(val)?;
@@ -299,24 +299,26 @@ impl<'de> Visitor<'de> for U64ArrayVisitor {
     type Value = FieldElement;
 
     fn expecting(&self, formatter: &mut std::fmt::Formatter) -> std::fmt::Result {
-        formatter.write_str("a sequence of 4 u64 values")
+        formatter.write_str("the 32 bytes of a canonical field element")
     }
 
     fn visit_seq<A>(self, mut seq: A) -> Result<Self::Value, A::Error>
     where
         A: serde::de::SeqAccess<'de>,
     {
-        let mut result = [0u64; 4];
+        let mut bytes = [0u8; 32];
 
-        for i in 0..4 {
-            let mut val: u64 = 0;
-            for j in 0..8 {
-                val += (seq.next_element::<u8>().unwrap().unwrap() as u64) * 256u64.pow(j)
-            }
-            result[i] = val;
+        for (i, byte) in bytes.iter_mut().enumerate() {
+            *byte = seq
+                .next_element::<u8>()?
+                .ok_or_else(|| serde::de::Error::invalid_length(i, &self))?;
+        }
+        if seq.next_element::<u8>()?.is_some() {
+            return Err(serde::de::Error::invalid_length(33, &self));
         }
 
-        Ok(FieldElement::from_raw(result))
+        Option::from(FieldElement::from_bytes(&bytes))
+            .ok_or_else(|| serde::de::Error::custom("non-canonical field element"))
     }
 }
 
diff --git a/packages/secq256k1/src/field/field_secq.rs b/packages/secq256k1/src/field/field_secq.rs
index 78b3c83..1e3708d 100644
--- a/packages/secq256k1/src/field/field_secq.rs
+++ b/packages/secq256k1/src/field/field_secq.rs
@@ -347,7 +347,7 @@ impl BaseField for FieldElement {
 
 impl Serialize for FieldElement {
     fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
-        let values: Vec<u8> = self.0.iter().map(|v| v.to_le_bytes()).flatten().collect();
+        let values = self.to_bytes();
         let mut seq = serializer.serialize_seq(Some(values.len()))?;
         for val in values.iter() {
             seq.serialize_element(val)?;
@@ -363,24 +363,26 @@ impl<'de> Visitor<'de> for U64ArrayVisitor {
     type Value = FieldElement;
 
     fn expecting(&self, formatter: &mut std::fmt::Formatter) -> std::fmt::Result {
-        formatter.write_str("a sequence of 4 u64 values")
+        formatter.write_str("the 32 bytes of a canonical field element")
     }
 
     fn visit_seq<A>(self, mut seq: A) -> Result<Self::Value, A::Error>
     where
         A: serde::de::SeqAccess<'de>,
     {
-        let mut result = [0u64; 4];
+        let mut bytes = [0u8; 32];
 
-        for i in 0..4 {
-            let mut val: u64 = 0;
-            for j in 0..8 {
-                val += (seq.next_element::<u8>().unwrap().unwrap() as u64) * 256u64.pow(j)
-            }
-            result[i] = val;
+        for (i, byte) in bytes.iter_mut().enumerate() {
+            *byte = seq
+                .next_element::<u8>()?
+                .ok_or_else(|| serde::de::Error::invalid_length(i, &self))?;
+        }
+        if seq.next_element::<u8>()?.is_some() {
+            return Err(serde::de::Error::invalid_length(33, &self));
         }
 
-        Ok(FieldElement::from_raw(result))
+        Option::from(FieldElement::from_bytes(&bytes))
+            .ok_or_else(|| serde::de::Error::custom("non-canonical field element"))
     }
 }
 
-- 
2.43.0


From 06f4bfe31f3c0124b4438f1a0de32776ecdc343b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:39 +0000
Subject: [PATCH 03/23] fix: two-adicity, root of unity and generator of
 secq256k1's scalar field and two-adicity of its base field

---
 packages/secq256k1/src/field/field_secq.rs |  2 +-
 packages/secq256k1/src/scalar.rs           | 12 +++---------
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/packages/secq256k1/src/field/field_secq.rs b/packages/secq256k1/src/field/field_secq.rs
index 1e3708d..c1450c3 100644
--- a/packages/secq256k1/src/field/field_secq.rs
+++ b/packages/secq256k1/src/field/field_secq.rs
@@ -469,7 +469,7 @@ impl PrimeField for FieldElement {
 
     const NUM_BITS: u32 = 256;
     const CAPACITY: u32 = 255;
-    const S: u32 = 1;
+    const S: u32 = 6;
 
     fn from_repr(bytes: FieldBytes) -> CtOption<Self> {
         Self::from_sec1(bytes)
diff --git a/packages/secq256k1/src/scalar.rs b/packages/secq256k1/src/scalar.rs
index a3aa073..9ff7bf1 100644
--- a/packages/secq256k1/src/scalar.rs
+++ b/packages/secq256k1/src/scalar.rs
@@ -7,7 +7,6 @@ use ff::{Field, PrimeField, PrimeFieldBits};
 use k256::elliptic_curve::bigint::Encoding;
 use primeorder::elliptic_curve::{
     bigint::{Limb, U256},
-    generic_array::arr,
     ops::Reduce,
     rand_core::RngCore,
     subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption},
@@ -73,7 +72,7 @@ impl PrimeField for Scalar {
 
     const NUM_BITS: u32 = 256;
     const CAPACITY: u32 = 255;
-    const S: u32 = 4;
+    const S: u32 = 1;
 
     fn from_repr(bytes: FieldBytes) -> CtOption<Self> {
         ScalarCore::from_be_bytes(bytes).map(Self)
@@ -88,16 +87,11 @@ impl PrimeField for Scalar {
     }
 
     fn multiplicative_generator() -> Self {
-        7u64.into()
+        3u64.into()
     }
 
     fn root_of_unity() -> Self {
-        Self::from_repr(arr![u8;
-            0xff, 0xc9, 0x7f, 0x06, 0x2a, 0x77, 0x09, 0x92, 0xba, 0x80, 0x7a, 0xce, 0x84, 0x2a,
-            0x3d, 0xfc, 0x15, 0x46, 0xca, 0xd0, 0x04, 0x37, 0x8d, 0xaf, 0x05, 0x92, 0xd7, 0xfb,
-            0xb4, 0x1e, 0x66, 0x02,
-        ])
-        .unwrap()
+        Self::one().neg()
     }
 }
 
-- 
2.43.0


From 7a09aa3182bda77e20f0016e952532dcd3724a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:58 +0000
Subject: [PATCH 04/23] fix: reject inner-product proofs whose numbers of L and
 R terms differ

---
 packages/Spartan-secq/src/nizk/bullet.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/Spartan-secq/src/nizk/bullet.rs b/packages/Spartan-secq/src/nizk/bullet.rs
index 2767a21..fc4806b 100644
--- a/packages/Spartan-secq/src/nizk/bullet.rs
+++ b/packages/Spartan-secq/src/nizk/bullet.rs
@@ -166,6 +166,10 @@ impl BulletReductionProof {
     if n != (1 << lg_n) {
       return Err(ProofVerifyError::InternalError);
     }
+    // there is exactly one R for every L
+    if self.R_vec.len() != lg_n {
+      return Err(ProofVerifyError::InternalError);
+    }
 
     // 1. Recompute x_k,...,x_1 based on the proof transcript
     let mut challenges = Vec::with_capacity(lg_n);
-- 
2.43.0


From 8813a3394be5f9ccab9ce07099e3968384078c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:58 +0000
Subject: [PATCH 05/23] fix: refuse a multi-scalar multiplication with more
 points than scalars instead of ignoring them

---
 packages/Spartan-secq/src/group.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/Spartan-secq/src/group.rs b/packages/Spartan-secq/src/group.rs
index e14091f..d018c57 100644
--- a/packages/Spartan-secq/src/group.rs
+++ b/packages/Spartan-secq/src/group.rs
@@ -106,6 +106,7 @@ impl VartimeMultiscalarMul for GroupElement {
   type Scalar = super::scalar::Scalar;
   // TODO Borrow the arguments so we don't have to clone them, as it was in the original implementation
   fn vartime_multiscalar_mul(scalars: Vec<Scalar>, points: Vec<GroupElement>) -> Self {
+    assert_eq!(scalars.len(), points.len());
     let points: Vec<ProjectivePoint> = points.iter().map(|p| ProjectivePoint::from(p.0)).collect();
 
     let pairs: Vec<(ScalarBytes, ProjectivePoint)> = scalars
-- 
2.43.0


From 331d8e9dd2f336e022ea7a9aac01c2c0592c8e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:58 +0000
Subject: [PATCH 06/23] fix: check the number of evaluations per matrix in the
 memory-checking proof

---
 packages/Spartan-secq/src/sparse_mlpoly.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/packages/Spartan-secq/src/sparse_mlpoly.rs b/packages/Spartan-secq/src/sparse_mlpoly.rs
index b2cf6a1..0ddc57c 100644
--- a/packages/Spartan-secq/src/sparse_mlpoly.rs
+++ b/packages/Spartan-secq/src/sparse_mlpoly.rs
@@ -937,6 +937,14 @@ impl HashLayerProof {
     let (eval_row_addr_vec, eval_row_read_ts_vec, eval_row_audit_ts) = &self.eval_row;
     let (eval_col_addr_vec, eval_col_read_ts_vec, eval_col_audit_ts) = &self.eval_col;
 
+    // there is one evaluation of each kind per instance
+    let num_instances = eval_row_ops_val.len();
+    assert_eq!(eval_val_vec.len(), num_instances);
+    assert_eq!(eval_row_addr_vec.len(), num_instances);
+    assert_eq!(eval_row_read_ts_vec.len(), num_instances);
+    assert_eq!(eval_col_addr_vec.len(), num_instances);
+    assert_eq!(eval_col_read_ts_vec.len(), num_instances);
+
     let mut evals_ops: Vec<Scalar> = Vec::new();
     evals_ops.extend(eval_row_addr_vec);
     evals_ops.extend(eval_row_read_ts_vec);
-- 
2.43.0


From 3f1965289a24bda6f523583d36b228813b4822dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:58 +0000
Subject: [PATCH 07/23] fix: check the lengths of all claimed dot-product
 evaluations

---
 packages/Spartan-secq/src/product_tree.rs  | 3 +++
 packages/Spartan-secq/src/sparse_mlpoly.rs | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/Spartan-secq/src/product_tree.rs b/packages/Spartan-secq/src/product_tree.rs
index 6e2f932..d1acd64 100644
--- a/packages/Spartan-secq/src/product_tree.rs
+++ b/packages/Spartan-secq/src/product_tree.rs
@@ -393,6 +393,9 @@ impl ProductCircuitEvalProofBatched {
     let mut rand: Vec<Scalar> = Vec::new();
     //let mut num_rounds = 0;
     assert_eq!(self.proof.len(), num_layers);
+    assert_eq!(self.claims_dotp.0.len(), claims_dotp_vec.len());
+    assert_eq!(self.claims_dotp.1.len(), claims_dotp_vec.len());
+    assert_eq!(self.claims_dotp.2.len(), claims_dotp_vec.len());
 
     let mut claims_to_verify = claims_prod_vec.to_owned();
     let mut claims_to_verify_dotp: Vec<Scalar> = Vec::new();
diff --git a/packages/Spartan-secq/src/sparse_mlpoly.rs b/packages/Spartan-secq/src/sparse_mlpoly.rs
index 0ddc57c..4a666e1 100644
--- a/packages/Spartan-secq/src/sparse_mlpoly.rs
+++ b/packages/Spartan-secq/src/sparse_mlpoly.rs
@@ -1276,7 +1276,7 @@ impl ProductLayerProof {
 
     // verify the evaluation of the sparse polynomial
     let (eval_dotp_left, eval_dotp_right) = &self.eval_val;
-    assert_eq!(eval_dotp_left.len(), eval_dotp_left.len());
+    assert_eq!(eval_dotp_left.len(), eval_dotp_right.len());
     assert_eq!(eval_dotp_left.len(), num_instances);
     let mut claims_dotp_circuit: Vec<Scalar> = Vec::new();
     for i in 0..num_instances {
-- 
2.43.0


From cb0f01ac7a700df7f7f6df9198e3521ab71d6aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:58 +0000
Subject: [PATCH 08/23] fix: check the number of round proofs of a
 zero-knowledge sum-check

---
 packages/Spartan-secq/src/sumcheck.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/Spartan-secq/src/sumcheck.rs b/packages/Spartan-secq/src/sumcheck.rs
index 418e3a8..331e782 100644
--- a/packages/Spartan-secq/src/sumcheck.rs
+++ b/packages/Spartan-secq/src/sumcheck.rs
@@ -97,6 +97,7 @@ impl ZKSumcheckInstanceProof {
     // verify that there is a univariate polynomial for each round
     assert_eq!(self.comm_polys.len(), num_rounds);
     assert_eq!(self.comm_evals.len(), num_rounds);
+    assert_eq!(self.proofs.len(), num_rounds);
 
     let mut r: Vec<Scalar> = Vec::new();
     for i in 0..self.comm_polys.len() {
-- 
2.43.0


From 7ed14574b3b0a05b9c10e72e8f4deafd9e72884d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:52 +0000
Subject: [PATCH 09/23] fix: pad a system without constraints to two
 constraints as documented

---
 packages/Spartan-secq/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/Spartan-secq/src/lib.rs b/packages/Spartan-secq/src/lib.rs
index 293ff43..9672252 100644
--- a/packages/Spartan-secq/src/lib.rs
+++ b/packages/Spartan-secq/src/lib.rs
@@ -151,8 +151,8 @@ impl Instance {
         }
 
         // ensure that num_cons_padded is power of 2
-        if num_cons.next_power_of_two() != num_cons {
-          num_cons_padded = num_cons.next_power_of_two();
+        if num_cons_padded.next_power_of_two() != num_cons_padded {
+          num_cons_padded = num_cons_padded.next_power_of_two();
         }
         num_cons_padded
       };
-- 
2.43.0


From 895feca375f0dab10934e81db88f338a1eca8131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:50 +0000
Subject: [PATCH 10/23] fix: tie the constant and public wires of a circuit to
 the constant one and the public inputs

---
 packages/circuit_reader/src/lib.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/packages/circuit_reader/src/lib.rs b/packages/circuit_reader/src/lib.rs
index 1efd3ff..18f96da 100644
--- a/packages/circuit_reader/src/lib.rs
+++ b/packages/circuit_reader/src/lib.rs
@@ -21,6 +21,25 @@ fn convert_to_spartan_r1cs<F: PrimeField<Repr = FieldBytes>>(
     let num_vars = r1cs.num_variables;
     let num_inputs = num_pub_inputs;
 
+    // Circom numbers the wires [1, public outputs, public inputs, private signals], whereas
+    // Spartan keeps the constant and the public inputs apart from the variables, at the end of
+    // the vector [vars, 1, inputs]. The last `num_pub_inputs` public wires are the public inputs.
+    assert!(
+        num_pub_inputs < r1cs.num_inputs,
+        "more public inputs than public wires"
+    );
+    let pub_wires = (r1cs.num_inputs - num_pub_inputs)..r1cs.num_inputs;
+    let column = |wire: usize| {
+        assert!(wire < num_vars, "wire {} out of range", wire);
+        if wire == 0 {
+            num_vars
+        } else if pub_wires.contains(&wire) {
+            num_vars + 1 + (wire - pub_wires.start)
+        } else {
+            wire
+        }
+    };
+
     let mut A = vec![];
     let mut B = vec![];
     let mut C = vec![];
@@ -31,17 +50,17 @@ fn convert_to_spartan_r1cs<F: PrimeField<Repr = FieldBytes>>(
         for (j, coeff) in a.iter() {
             let bytes: [u8; 32] = coeff.to_repr().into();
 
-            A.push((i, *j, bytes));
+            A.push((i, column(*j), bytes));
         }
 
         for (j, coeff) in b.iter() {
             let bytes: [u8; 32] = coeff.to_repr().into();
-            B.push((i, *j, bytes));
+            B.push((i, column(*j), bytes));
         }
 
         for (j, coeff) in c.iter() {
             let bytes: [u8; 32] = coeff.to_repr().into();
-            C.push((i, *j, bytes));
+            C.push((i, column(*j), bytes));
         }
     }
 
-- 
2.43.0


From 23415a6e037dbdc279ce9d09e1912200ead4b1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:50 +0000
Subject: [PATCH 11/23] fix: report missing sections and an empty wire map of a
 constraint file as errors

---
 packages/circuit_reader/src/circom_reader.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/circuit_reader/src/circom_reader.rs b/packages/circuit_reader/src/circom_reader.rs
index cae09df..6f38f39 100644
--- a/packages/circuit_reader/src/circom_reader.rs
+++ b/packages/circuit_reader/src/circom_reader.rs
@@ -138,7 +138,7 @@ fn read_map<R: Read>(mut reader: R, size: u64, header: &Header) -> Result<Vec<u6
     for _ in 0..header.n_wires {
         vec.push(reader.read_u64::<LittleEndian>()?);
     }
-    if vec[0] != 0 {
+    if vec.first() != Some(&0) {
         return Err(Error::new(
             ErrorKind::InvalidData,
             "Wire 0 should always be mapped to 0",
@@ -180,6 +180,12 @@ pub fn from_reader<G1: Group, R: Read + Seek>(mut reader: R) -> Result<R1CSFile<
     let constraint_type = 2;
     let wire2label_type = 3;
 
+    for section in [header_type, constraint_type, wire2label_type] {
+        if !section_offsets.contains_key(&section) {
+            return Err(Error::new(ErrorKind::InvalidData, "Missing section"));
+        }
+    }
+
     reader.seek(SeekFrom::Start(*section_offsets.get(&header_type).unwrap()))?;
     let header = read_header(&mut reader, *section_sizes.get(&header_type).unwrap())?;
     if header.field_size != 32 {
-- 
2.43.0


From f84989b29e11d2b5f0ff48e31d2cbbdb679a638b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:12 +0000
Subject: [PATCH 12/23] fix: read constraint coefficients in the byte order of
 the file and report invalid ones as errors

---
 packages/circuit_reader/src/circom_reader.rs |  9 ++++++---
 packages/circuit_reader/src/lib.rs           | 16 ++++++++++++----
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/packages/circuit_reader/src/circom_reader.rs b/packages/circuit_reader/src/circom_reader.rs
index 6f38f39..6299900 100644
--- a/packages/circuit_reader/src/circom_reader.rs
+++ b/packages/circuit_reader/src/circom_reader.rs
@@ -69,11 +69,14 @@ pub fn load_r1cs_from_bin<G1: Group, R: Read + Seek>(reader: R) -> (R1CS<G1::Sca
 pub(crate) fn read_field<R: Read, Fr: PrimeField>(mut reader: R) -> Result<Fr> {
     let mut repr = Fr::zero().to_repr();
     for digit in repr.as_mut().iter_mut() {
-        // TODO: may need to reverse order?
         *digit = reader.read_u8()?;
     }
-    let fr = Fr::from_repr(repr).unwrap();
-    Ok(fr)
+    // The file is little-endian, the representation of the field may be big-endian
+    if Fr::one().to_repr().as_ref()[0] == 0 {
+        repr.as_mut().reverse();
+    }
+    Option::from(Fr::from_repr(repr))
+        .ok_or_else(|| Error::new(ErrorKind::InvalidData, "Invalid field element"))
 }
 
 fn read_header<R: Read>(mut reader: R, size: u64) -> Result<Header> {
diff --git a/packages/circuit_reader/src/lib.rs b/packages/circuit_reader/src/lib.rs
index 18f96da..fd6968a 100644
--- a/packages/circuit_reader/src/lib.rs
+++ b/packages/circuit_reader/src/lib.rs
@@ -13,6 +13,15 @@ pub fn load_as_spartan_inst(circuit_file: PathBuf, num_pub_inputs: usize) -> Ins
     spartan_inst
 }
 
+/// Little-endian encoding of a field element, as the proof system expects it
+fn to_le_bytes<F: PrimeField<Repr = FieldBytes>>(x: &F) -> [u8; 32] {
+    let mut bytes: [u8; 32] = x.to_repr().into();
+    if F::one().to_repr()[0] == 0 {
+        bytes.reverse();
+    }
+    bytes
+}
+
 fn convert_to_spartan_r1cs<F: PrimeField<Repr = FieldBytes>>(
     r1cs: &R1CS<F>,
     num_pub_inputs: usize,
@@ -48,18 +57,17 @@ fn convert_to_spartan_r1cs<F: PrimeField<Repr = FieldBytes>>(
         let (a, b, c) = constraint;
 
         for (j, coeff) in a.iter() {
-            let bytes: [u8; 32] = coeff.to_repr().into();
-
+            let bytes = to_le_bytes(coeff);
             A.push((i, column(*j), bytes));
         }
 
         for (j, coeff) in b.iter() {
-            let bytes: [u8; 32] = coeff.to_repr().into();
+            let bytes = to_le_bytes(coeff);
             B.push((i, column(*j), bytes));
         }
 
         for (j, coeff) in c.iter() {
-            let bytes: [u8; 32] = coeff.to_repr().into();
+            let bytes = to_le_bytes(coeff);
             C.push((i, column(*j), bytes));
         }
     }
-- 
2.43.0


From 8a2537801aefda3cbe00bc98effb42b3f615ac02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:12 +0000
Subject: [PATCH 13/23] fix: report constraint files with more public wires
 than wires as errors

---
 packages/circuit_reader/src/circom_reader.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/packages/circuit_reader/src/circom_reader.rs b/packages/circuit_reader/src/circom_reader.rs
index 6299900..1f36c23 100644
--- a/packages/circuit_reader/src/circom_reader.rs
+++ b/packages/circuit_reader/src/circom_reader.rs
@@ -197,6 +197,12 @@ pub fn from_reader<G1: Group, R: Read + Seek>(mut reader: R) -> Result<R1CSFile<
             "This parser only supports 32-byte fields",
         ));
     }
+    if 1 + header.n_pub_in as u64 + header.n_pub_out as u64 > header.n_wires as u64 {
+        return Err(Error::new(
+            ErrorKind::InvalidData,
+            "More public wires than wires",
+        ));
+    }
     // if header.prime_size != hex!("010000f093f5e1439170b97948e833285d588181b64550b829a031e1724e6430") {
     //     return Err(Error::new(ErrorKind::InvalidData, "This parser only supports bn256"));
     // }
-- 
2.43.0


From 872e11e74bc1a3ddf29b5c5831453f8675a985a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:24 +0000
Subject: [PATCH 14/23] fix: read witness values in the byte order of the file
 and report invalid ones as errors

---
 packages/spartan_wasm/src/wasm.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/packages/spartan_wasm/src/wasm.rs b/packages/spartan_wasm/src/wasm.rs
index 465e57d..1da0819 100644
--- a/packages/spartan_wasm/src/wasm.rs
+++ b/packages/spartan_wasm/src/wasm.rs
@@ -1,11 +1,11 @@
 use byteorder::{LittleEndian, ReadBytesExt};
 use console_error_panic_hook;
-use ff::PrimeField;
+use ff::{Field, PrimeField};
 use libspartan::{Assignment, Instance, NIZKGens, NIZK};
 use merlin::Transcript;
 use poseidon::poseidon_k256::{hash, FieldElement};
 use secq256k1::{affine::Group, field::BaseField};
-use std::io::{Error, Read};
+use std::io::{Error, ErrorKind, Read};
 use wasm_bindgen::prelude::*;
 
 pub type G1 = secq256k1::AffinePoint;
@@ -21,7 +21,7 @@ pub fn prove(circuit: &[u8], vars: &[u8], public_inputs: &[u8]) -> Result<Vec<u8
     let witness = load_witness_from_bin_reader::<F1, _>(vars).unwrap();
     let witness_bytes = witness
         .iter()
-        .map(|w| w.to_repr().into())
+        .map(|w| to_le_bytes(w))
         .collect::<Vec<[u8; 32]>>();
 
     let assignment = Assignment::new(&witness_bytes).unwrap();
@@ -96,15 +96,27 @@ pub fn poseidon(input_bytes: &[u8]) -> Result<Vec<u8>, JsValue> {
     Ok(result.to_bytes().to_vec())
 }
 
+/// Little-endian encoding of a field element, as the proof system expects it
+fn to_le_bytes(x: &F1) -> [u8; 32] {
+    let mut bytes: [u8; 32] = x.to_repr().into();
+    if F1::one().to_repr()[0] == 0 {
+        bytes.reverse();
+    }
+    bytes
+}
+
 // Copied from Nova Scotia
 pub fn read_field<R: Read, Fr: PrimeField>(mut reader: R) -> Result<Fr, Error> {
     let mut repr = Fr::zero().to_repr();
     for digit in repr.as_mut().iter_mut() {
-        // TODO: may need to reverse order?
         *digit = reader.read_u8()?;
     }
-    let fr = Fr::from_repr(repr).unwrap();
-    Ok(fr)
+    // The file is little-endian, the representation of the field may be big-endian
+    if Fr::one().to_repr().as_ref()[0] == 0 {
+        repr.as_mut().reverse();
+    }
+    Option::from(Fr::from_repr(repr))
+        .ok_or_else(|| Error::new(ErrorKind::InvalidData, "Invalid field element"))
 }
 
 pub fn load_witness_from_bin_reader<Fr: PrimeField, R: Read>(
-- 
2.43.0


From 8ab08a0d98dcbc230b32cd7a1c6eadcd2cbb6209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:24 +0000
Subject: [PATCH 15/23] fix: compare the size of the witness section without
 overflow

---
 packages/spartan_wasm/src/wasm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/spartan_wasm/src/wasm.rs b/packages/spartan_wasm/src/wasm.rs
index 1da0819..d9c3743 100644
--- a/packages/spartan_wasm/src/wasm.rs
+++ b/packages/spartan_wasm/src/wasm.rs
@@ -162,7 +162,7 @@ pub fn load_witness_from_bin_reader<Fr: PrimeField, R: Read>(
         panic!("invalid section type");
     }
     let sec_size = reader.read_u64::<LittleEndian>()?;
-    if sec_size != (witness_len * field_size) as u64 {
+    if sec_size != witness_len as u64 * field_size as u64 {
         panic!("invalid witness section size {}", sec_size);
     }
     let mut result = Vec::with_capacity(witness_len as usize);
-- 
2.43.0


From 14be7fd56e123edd460ce4e89e05416d7273812f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:57 +0000
Subject: [PATCH 16/23] fix: points that do not decode are reported instead of
 panicking (33-byte encodings did not fit the error value)

---
 packages/Spartan-secq/src/errors.rs | 2 +-
 packages/Spartan-secq/src/group.rs  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/Spartan-secq/src/errors.rs b/packages/Spartan-secq/src/errors.rs
index 18e157b..145127e 100644
--- a/packages/Spartan-secq/src/errors.rs
+++ b/packages/Spartan-secq/src/errors.rs
@@ -6,7 +6,7 @@ pub enum ProofVerifyError {
   #[error("Proof verification failed")]
   InternalError,
   #[error("Compressed group element failed to decompress: {0:?}")]
-  DecompressionError([u8; 32]),
+  DecompressionError(Vec<u8>),
 }
 
 impl Default for ProofVerifyError {
diff --git a/packages/Spartan-secq/src/group.rs b/packages/Spartan-secq/src/group.rs
index d018c57..2ab2d1e 100644
--- a/packages/Spartan-secq/src/group.rs
+++ b/packages/Spartan-secq/src/group.rs
@@ -20,7 +20,7 @@ impl CompressedGroupExt for CompressedGroup {
       return Ok(result.unwrap());
     } else {
       Err(ProofVerifyError::DecompressionError(
-        (*self.to_bytes()).try_into().unwrap(),
+        self.as_bytes().to_vec(),
       ))
     }
   }
@@ -32,7 +32,7 @@ pub trait DecompressEncodedPoint {
 
 impl DecompressEncodedPoint for CompressedGroup {
   fn decompress(&self) -> Option<GroupElement> {
-    Some(self.unpack().unwrap())
+    self.unpack().ok()
   }
 }
 
-- 
2.43.0


From 8424c450e0c7dd9ae521b2858f2559b9b6af0d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:17 +0000
Subject: [PATCH 17/23] fix: every Poseidon hash starts at the first round
 constant (a second hash with the same object ran past the constants)

---
 packages/poseidon/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/poseidon/src/lib.rs b/packages/poseidon/src/lib.rs
index ab1d198..9c7e033 100644
--- a/packages/poseidon/src/lib.rs
+++ b/packages/poseidon/src/lib.rs
@@ -48,6 +48,7 @@ impl<F: PrimeField> Poseidon<F> {
         let input = [domain_tag, input[0], input[1]];
 
         self.state = input;
+        self.pos = 0;
 
         let full_rounds_half = self.constants.num_full_rounds / 2;
 
-- 
2.43.0


From c7ffd53b3cbf7fd620493c41ac20c8b143b3eae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:34 +0000
Subject: [PATCH 18/23] fix: constrain lambda when doubling in
 Secp256k1AddComplete

lambdaA is a free witness when xP = xQ (dx * lambdaA === dy is 0 = 0), and it
was added to lambda in that case too, so a prover could choose the output of a
doubling.
---
 packages/circuits/eff_ecdsa_membership/secp256k1/add.circom | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/circuits/eff_ecdsa_membership/secp256k1/add.circom b/packages/circuits/eff_ecdsa_membership/secp256k1/add.circom
index f304940..b458204 100644
--- a/packages/circuits/eff_ecdsa_membership/secp256k1/add.circom
+++ b/packages/circuits/eff_ecdsa_membership/secp256k1/add.circom
@@ -80,7 +80,8 @@ template Secp256k1AddComplete() {
     lambdaB * 2 * yP === 3 * xPSquared;
 
     // lambda = xP != xQ ? lambdaA : lambdaB
-    signal lambda <== (lambdaB * isXEqual.out) + lambdaA;
+    // (lambdaA is unconstrained when xP = xQ, so it must not contribute in that case)
+    signal lambda <== ((lambdaB - lambdaA) * isXEqual.out) + lambdaA;
 
     // outAx = lambda^2 - xP - xQ
     // outAy = lambda * (xP - outAx) - yP
-- 
2.43.0


From c7b4809a03f910edfe6e49cd96e48030f3b3a519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:34 +0000
Subject: [PATCH 19/23] fix: zeroize only when xP = xQ and yP = -yQ in
 Secp256k1AddComplete

The comparison of isXEqual with 1 - (yP + yQ) also held when both are zero,
so the sum of points with different x and yP + yQ = 1 came out as the point at
infinity.
---
 .../circuits/eff_ecdsa_membership/secp256k1/add.circom   | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/packages/circuits/eff_ecdsa_membership/secp256k1/add.circom b/packages/circuits/eff_ecdsa_membership/secp256k1/add.circom
index b458204..113abda 100644
--- a/packages/circuits/eff_ecdsa_membership/secp256k1/add.circom
+++ b/packages/circuits/eff_ecdsa_membership/secp256k1/add.circom
@@ -101,9 +101,12 @@ template Secp256k1AddComplete() {
     signal outDy <== isXqZero.out * yP;
 
     // zeroizeA = (xP = xQ and yP = -yQ) ? 1 : 0
-    component zeroizeA = IsEqual();
-    zeroizeA.in[0] <== isXEqual.out;
-    zeroizeA.in[1] <== 1 - (yP + yQ);
+    component isYOpposite = IsZero();
+    isYOpposite.in <== yP + yQ;
+
+    component zeroizeA = AND();
+    zeroizeA.a <== isXEqual.out;
+    zeroizeA.b <== isYOpposite.out;
 
     // zeroizeB = (xP = 0 and xQ = 0) ? 1 : 0
     component zeroizeB = AND();
-- 
2.43.0


From 912dd06357b0198fd459ea76774c1c4be1ac11a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:35 +0000
Subject: [PATCH 20/23] fix: constrain the registers of the scalar in K

slo and shi were assigned but never tied to s, so a prover could choose the
bits of k, and with them the multiple Secp256k1Mul outputs, freely.
---
 .../circuits/eff_ecdsa_membership/secp256k1/mul.circom   | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom b/packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom
index 7c9ee91..143aa3b 100644
--- a/packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom
+++ b/packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom
@@ -123,6 +123,15 @@ template K() {
     signal slo <-- s & (2 ** (128) - 1);
     signal shi <-- s >> 128;
 
+    // Constrain the registers to be 128 bits each and to recompose to s
+    component sloBits = Num2Bits(128);
+    sloBits.in <== slo;
+
+    component shiBits = Num2Bits(128);
+    shiBits.in <== shi;
+
+    slo + shi * (2 ** 128) === s;
+
     // Get carry bit of (slo + tQlo)
 
     component inBits = Num2Bits(128 + 1);
-- 
2.43.0


From c47c8a2edbb3422872560970151843b6190b91a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:35 +0000
Subject: [PATCH 21/23] fix: keep the carry into the high register in K

When slo + tQlo reaches 2^128 and s + tQ is below q (s in [2^128 - tQlo,
2^128)), the carry was dropped: bits 128 and up of klo are ignored and khi did
not include it. Use the normalised registers alo and ahi, which also makes klo
and khi 128-bit values.
---
 .../eff_ecdsa_membership/secp256k1/mul.circom      | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom b/packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom
index 143aa3b..476579c 100644
--- a/packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom
+++ b/packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom
@@ -173,23 +173,23 @@ template K() {
     isQuotientOne.a <== betaANDgamma.out;
     isQuotientOne.b <== alpha.out;
 
-    // theta: (slo + tQlo) < qlo
+    // theta: alo < qlo
     component theta = GreaterThan(129);
     theta.in[0] <== qlo;
-    theta.in[1] <== slo + tQlo;
+    theta.in[1] <== alo;
 
-    // borrow: (slo + tQlo) < qlo and isQuotientOne ? 1 : 0
+    // borrow: alo < qlo and isQuotientOne ? 1 : 0
     component borrow = AND();
     borrow.a <== theta.out;
     borrow.b <== isQuotientOne.out;
 
-    signal klo <== (slo + tQlo + borrow.out * (2 ** 128)) - isQuotientOne.out * qlo;
-    signal khi <== (shi + tQhi - borrow.out * 1)  - isQuotientOne.out * qhi;
+    signal klo <== (alo + borrow.out * (2 ** 128)) - isQuotientOne.out * qlo;
+    signal khi <== (ahi - borrow.out * 1)  - isQuotientOne.out * qhi;
 
-    component kloBits = Num2Bits(256);
+    component kloBits = Num2Bits(128);
     kloBits.in <== klo;
 
-    component khiBits = Num2Bits(256);
+    component khiBits = Num2Bits(128);
     khiBits.in <== khi;
 
     for (var i = 0; i < 128; i++) {
-- 
2.43.0


From 514e5d5158ba7060ef7ead8285f024e0886bf7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:25 +0000
Subject: [PATCH 22/23] fix: MembershipVerifier.verify returns false on
 malformed public input instead of throwing

---
 packages/lib/src/core/verifier.ts | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/packages/lib/src/core/verifier.ts b/packages/lib/src/core/verifier.ts
index b891fd7..8d94820 100644
--- a/packages/lib/src/core/verifier.ts
+++ b/packages/lib/src/core/verifier.ts
@@ -49,8 +49,17 @@ export class MembershipVerifier extends Profiler implements IVerifier {
     this.timeEnd("Load circuit");
 
     this.time("Verify public input");
-    const publicInput = PublicInput.deserialize(publicInputSer);
-    const isPubInputValid = verifyEffEcdsaPubInput(publicInput);
+    let publicInput: PublicInput;
+    let isPubInputValid;
+    try {
+      publicInput = PublicInput.deserialize(publicInputSer);
+      isPubInputValid = verifyEffEcdsaPubInput(publicInput);
+    } catch (_e) {
+      // Malformed public input (e.g. truncated, or r is not the x coordinate
+      // of a curve point)
+      this.timeEnd("Verify public input");
+      return false;
+    }
     this.timeEnd("Verify public input");
 
     this.time("Verify proof");
-- 
2.43.0


From 2b1c5f2e7a34253ba774ea8c41797f633fb83466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:03 +0000
Subject: [PATCH 23/23] fix: secq256k1 Scalar::char_le_bits returns the
 characteristic in little-endian order

---
 packages/secq256k1/src/scalar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/secq256k1/src/scalar.rs b/packages/secq256k1/src/scalar.rs
index 9ff7bf1..a644694 100644
--- a/packages/secq256k1/src/scalar.rs
+++ b/packages/secq256k1/src/scalar.rs
@@ -304,7 +304,7 @@ impl PrimeFieldBits for Scalar {
     }
 
     fn char_le_bits() -> ff::FieldBits<Self::ReprBits> {
-        ScalarCore::MODULUS.to_be_bytes().into()
+        ScalarCore::MODULUS.to_le_bytes().into()
     }
 }
 
-- 
2.43.0

