From eea08308d82dd18c07a343b7a3435100cfbb87ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:59 +0000
Subject: [PATCH 01/14] hooks: verif_hooks-guarded accessors for the
 verification harness

---
 bulletproofs/src/generators.rs              | 16 ++++++
 bulletproofs/src/lib.rs                     |  2 +
 bulletproofs/src/r1cs/linear_combination.rs |  8 +++
 bulletproofs/src/r1cs/mod.rs                |  2 +
 bulletproofs/src/r1cs/proof.rs              | 57 +++++++++++++++++++++
 bulletproofs/src/r1cs/prover.rs             | 41 +++++++++++++++
 bulletproofs/src/r1cs/verifier.rs           | 18 +++++++
 7 files changed, 144 insertions(+)

diff --git a/bulletproofs/src/generators.rs b/bulletproofs/src/generators.rs
index 40f2219..328241e 100644
--- a/bulletproofs/src/generators.rs
+++ b/bulletproofs/src/generators.rs
@@ -290,6 +290,22 @@ impl<'a, C: AffineRepr> BulletproofGensShare<'a, C> {
     }
 }
 
+#[cfg(verif_hooks)]
+impl<C: AffineRepr> BulletproofGens<C> {
+    /// Verification hook: the first `n` H generators of party 0.
+    pub fn verif_h(&self, n: usize) -> Vec<C> {
+        self.share(0).H(n).copied().collect()
+    }
+
+    /// Verification hook: the generators aggregated over `m` parties.
+    pub fn verif_aggregated(&self, n: usize, m: usize) -> (Vec<C>, Vec<C>) {
+        (
+            self.G(n, m).copied().collect(),
+            self.H(n, m).copied().collect(),
+        )
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/bulletproofs/src/lib.rs b/bulletproofs/src/lib.rs
index 514b693..e5f93af 100644
--- a/bulletproofs/src/lib.rs
+++ b/bulletproofs/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)] // cfg(verif_hooks) guards verification hooks
+
 extern crate alloc;
 
 mod util;
diff --git a/bulletproofs/src/r1cs/linear_combination.rs b/bulletproofs/src/r1cs/linear_combination.rs
index 8e581aa..4f6efd6 100644
--- a/bulletproofs/src/r1cs/linear_combination.rs
+++ b/bulletproofs/src/r1cs/linear_combination.rs
@@ -230,3 +230,11 @@ impl<F: Field, S: Into<F>> Mul<S> for LinearCombination<F> {
         self
     }
 }
+
+#[cfg(verif_hooks)]
+impl<F: Field> LinearCombination<F> {
+    /// Verification hook: the terms of this linear combination.
+    pub fn verif_terms(&self) -> &[(Variable<F>, F)] {
+        &self.terms
+    }
+}
diff --git a/bulletproofs/src/r1cs/mod.rs b/bulletproofs/src/r1cs/mod.rs
index 18b93b8..1e18f30 100644
--- a/bulletproofs/src/r1cs/mod.rs
+++ b/bulletproofs/src/r1cs/mod.rs
@@ -11,6 +11,8 @@ pub use self::constraint_system::{
 pub use self::linear_combination::{constant, LinearCombination, Variable};
 pub use self::metrics::Metrics;
 pub use self::proof::R1CSProof;
+#[cfg(verif_hooks)]
+pub use self::proof::VerifProofParts;
 pub use self::prover::Prover;
 pub use self::verifier::{batch_verify, VerificationTuple, Verifier};
 
diff --git a/bulletproofs/src/r1cs/proof.rs b/bulletproofs/src/r1cs/proof.rs
index 7f416ca..0ac1102 100644
--- a/bulletproofs/src/r1cs/proof.rs
+++ b/bulletproofs/src/r1cs/proof.rs
@@ -169,3 +169,60 @@ impl<C: AffineRepr> CanonicalDeserialize for R1CSProof<C> {
         })
     }
 }
+
+/// Verification hook: all elements of a proof.
+#[cfg(verif_hooks)]
+#[derive(Clone, Debug)]
+pub struct VerifProofParts<C: AffineRepr> {
+    /// A_I1, A_O1, S1, A_I2, A_O2, S2
+    pub points: [C; 6],
+    pub T: Vec<C>,
+    /// t_x, t_x_blinding, e_blinding
+    pub scalars: [C::ScalarField; 3],
+    pub L: Vec<C>,
+    pub R: Vec<C>,
+    pub a: C::ScalarField,
+    pub b: C::ScalarField,
+}
+
+#[cfg(verif_hooks)]
+impl<C: AffineRepr> R1CSProof<C> {
+    /// Verification hook: assemble a proof from its elements.
+    pub fn verif_from_parts(p: VerifProofParts<C>) -> Self {
+        let [A_I1, A_O1, S1, A_I2, A_O2, S2] = p.points;
+        let [t_x, t_x_blinding, e_blinding] = p.scalars;
+        R1CSProof {
+            A_I1,
+            A_O1,
+            S1,
+            A_I2,
+            A_O2,
+            S2,
+            T: p.T,
+            t_x,
+            t_x_blinding,
+            e_blinding,
+            ipp_proof: InnerProductProof {
+                L_vec: p.L,
+                R_vec: p.R,
+                a: p.a,
+                b: p.b,
+            },
+        }
+    }
+
+    /// Verification hook: the elements of this proof.
+    pub fn verif_parts(&self) -> VerifProofParts<C> {
+        VerifProofParts {
+            points: [
+                self.A_I1, self.A_O1, self.S1, self.A_I2, self.A_O2, self.S2,
+            ],
+            T: self.T.clone(),
+            scalars: [self.t_x, self.t_x_blinding, self.e_blinding],
+            L: self.ipp_proof.L_vec.clone(),
+            R: self.ipp_proof.R_vec.clone(),
+            a: self.ipp_proof.a,
+            b: self.ipp_proof.b,
+        }
+    }
+}
diff --git a/bulletproofs/src/r1cs/prover.rs b/bulletproofs/src/r1cs/prover.rs
index 694fd1f..c2c5052 100644
--- a/bulletproofs/src/r1cs/prover.rs
+++ b/bulletproofs/src/r1cs/prover.rs
@@ -1194,3 +1194,44 @@ impl<'g, T: BorrowMut<Transcript>, C: AffineRepr> Prover<'g, T, C> {
         Ok((proof, self.transcript))
     }
 }
+
+#[cfg(verif_hooks)]
+impl<'g, T: BorrowMut<Transcript>, C: AffineRepr> Prover<'g, T, C> {
+    /// Verification hook: the linear constraints declared so far.
+    pub fn verif_constraints(&self) -> &[LinearCombination<C::ScalarField>] {
+        &self.constraints
+    }
+
+    /// Verification hook: the gate assignments `(a_L, a_R, a_O)`.
+    #[allow(clippy::type_complexity)]
+    pub fn verif_gates(
+        &self,
+    ) -> (
+        &[C::ScalarField],
+        &[C::ScalarField],
+        &[C::ScalarField],
+    ) {
+        (&self.secrets.a_L, &self.secrets.a_R, &self.secrets.a_O)
+    }
+
+    /// Verification hook: mutable access to the gate outputs.
+    pub fn verif_gates_out_mut(&mut self) -> &mut Vec<C::ScalarField> {
+        &mut self.secrets.a_O
+    }
+
+    /// Verification hook: openings `(v, v_blinding)` and the vector commitment openings.
+    #[allow(clippy::type_complexity)]
+    pub fn verif_openings(
+        &self,
+    ) -> (
+        &[C::ScalarField],
+        &[C::ScalarField],
+        &[(C::ScalarField, Vec<C::ScalarField>)],
+    ) {
+        (
+            &self.secrets.v,
+            &self.secrets.v_blinding,
+            &self.secrets.vec_open,
+        )
+    }
+}
diff --git a/bulletproofs/src/r1cs/verifier.rs b/bulletproofs/src/r1cs/verifier.rs
index 5682805..b8089ad 100644
--- a/bulletproofs/src/r1cs/verifier.rs
+++ b/bulletproofs/src/r1cs/verifier.rs
@@ -800,3 +800,21 @@ pub fn batch_verify<C: AffineRepr>(
 
     Ok(())
 }
+
+#[cfg(verif_hooks)]
+impl<T: BorrowMut<Transcript>, C: AffineRepr> Verifier<T, C> {
+    /// Verification hook: the linear constraints declared so far.
+    pub fn verif_constraints(&self) -> &[LinearCombination<C::ScalarField>] {
+        &self.constraints
+    }
+
+    /// Verification hook: the number of multiplication gates.
+    pub fn verif_num_vars(&self) -> usize {
+        self.num_vars
+    }
+
+    /// Verification hook: the scalar commitments and the vector commitments with their dimension.
+    pub fn verif_commitments(&self) -> (&[C], &[(C, usize)]) {
+        (&self.V, &self.vec_comms)
+    }
+}
-- 
2.43.0


From 147614f61324c499f54f0eefb83afe90824538bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:00 +0000
Subject: [PATCH 02/14] hooks: formatting

---
 bulletproofs/src/r1cs/proof.rs  | 4 +---
 bulletproofs/src/r1cs/prover.rs | 8 +-------
 2 files changed, 2 insertions(+), 10 deletions(-)

diff --git a/bulletproofs/src/r1cs/proof.rs b/bulletproofs/src/r1cs/proof.rs
index 0ac1102..91f3d93 100644
--- a/bulletproofs/src/r1cs/proof.rs
+++ b/bulletproofs/src/r1cs/proof.rs
@@ -214,9 +214,7 @@ impl<C: AffineRepr> R1CSProof<C> {
     /// Verification hook: the elements of this proof.
     pub fn verif_parts(&self) -> VerifProofParts<C> {
         VerifProofParts {
-            points: [
-                self.A_I1, self.A_O1, self.S1, self.A_I2, self.A_O2, self.S2,
-            ],
+            points: [self.A_I1, self.A_O1, self.S1, self.A_I2, self.A_O2, self.S2],
             T: self.T.clone(),
             scalars: [self.t_x, self.t_x_blinding, self.e_blinding],
             L: self.ipp_proof.L_vec.clone(),
diff --git a/bulletproofs/src/r1cs/prover.rs b/bulletproofs/src/r1cs/prover.rs
index c2c5052..0d1b196 100644
--- a/bulletproofs/src/r1cs/prover.rs
+++ b/bulletproofs/src/r1cs/prover.rs
@@ -1204,13 +1204,7 @@ impl<'g, T: BorrowMut<Transcript>, C: AffineRepr> Prover<'g, T, C> {
 
     /// Verification hook: the gate assignments `(a_L, a_R, a_O)`.
     #[allow(clippy::type_complexity)]
-    pub fn verif_gates(
-        &self,
-    ) -> (
-        &[C::ScalarField],
-        &[C::ScalarField],
-        &[C::ScalarField],
-    ) {
+    pub fn verif_gates(&self) -> (&[C::ScalarField], &[C::ScalarField], &[C::ScalarField]) {
         (&self.secrets.a_L, &self.secrets.a_R, &self.secrets.a_O)
     }
 
-- 
2.43.0


From 741216cb43c1e1260e3834fcde09e3468418850a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:24 +0000
Subject: [PATCH 03/14] fix: keep vector commitments clear of every other term
 at the operation degree

A vector commitment that opens to values at the H generators contributes them
to the right polynomial. With the previous assignment of degrees these values
met a_O (or another commitment) at the degree where the constraints are
checked, so a prover could satisfy the verification equation with
a_L * a_R != a_O.
---
 bulletproofs/src/r1cs/mod.rs      |  25 +++++---
 bulletproofs/src/r1cs/prover.rs   | 102 ++++++++----------------------
 bulletproofs/src/r1cs/verifier.rs |   6 +-
 bulletproofs/src/util.rs          |   6 +-
 4 files changed, 50 insertions(+), 89 deletions(-)

diff --git a/bulletproofs/src/r1cs/mod.rs b/bulletproofs/src/r1cs/mod.rs
index 1e18f30..f258278 100644
--- a/bulletproofs/src/r1cs/mod.rs
+++ b/bulletproofs/src/r1cs/mod.rs
@@ -18,23 +18,30 @@ pub use self::verifier::{batch_verify, VerificationTuple, Verifier};
 
 pub use crate::errors::R1CSError;
 
+/// The degree at which the constraints are checked, given the number of vector commitments.
+fn op_degree(num_vec_comms: usize) -> usize {
+    2 * (num_vec_comms + 1)
+}
+
+/// The degrees (in the left and the right polynomial) of
+/// a_L / a_R, a_O / its weights and every vector commitment / its weights.
+///
+/// A vector commitment may open to values at the H generators as well, which
+/// then enter the right polynomial at the degree of the commitment. Hence, all vector commitments are
+/// assigned to degrees between 1 and op_deg / 2 - 1:
+/// the left polynomial is zero at the complementary degrees.
 fn op_splits(op_deg: usize) -> Vec<(usize, usize)> {
     debug_assert_eq!(op_deg % 2, 0);
     let mid = op_deg / 2;
 
     // the first two are special
-    let mut op_splits = Vec::with_capacity(op_deg);
+    let mut op_splits = Vec::with_capacity(mid + 1);
     op_splits.push((mid, mid));
     op_splits.push((op_deg, 0));
 
-    // all other deg splits
-    for r_deg in 1..op_deg + 1 {
-        if r_deg == mid {
-            // already taken
-            continue;
-        }
-        let l_deg = op_deg - r_deg;
-        op_splits.push((l_deg, r_deg));
+    // vector commitments
+    for l_deg in 1..mid {
+        op_splits.push((l_deg, op_deg - l_deg));
     }
 
     op_splits
diff --git a/bulletproofs/src/r1cs/prover.rs b/bulletproofs/src/r1cs/prover.rs
index 0d1b196..2472ede 100644
--- a/bulletproofs/src/r1cs/prover.rs
+++ b/bulletproofs/src/r1cs/prover.rs
@@ -19,7 +19,7 @@ use crate::inner_product_proof::InnerProductProof;
 use crate::r1cs::Metrics;
 use crate::transcript::TranscriptProtocol;
 
-use super::op_splits;
+use super::{op_degree, op_splits};
 
 /// A [`ConstraintSystem`] implementation for use by the prover.
 ///
@@ -514,8 +514,8 @@ impl<'g, T: BorrowMut<Transcript>, C: AffineRepr> Prover<'g, T, C> {
         // number of commitments
         let ncomm = self.secrets.vec_open.len();
 
-        // op_degree = 2 + 2 * floor(#comm / 2)
-        let op_degree = 2 + 2 * (ncomm / 2);
+        // op_degree = 2 * (#comm + 1)
+        let op_degree = op_degree(ncomm);
 
         let ops = op_splits(op_degree);
         let veccom_ops = &ops[2..];
@@ -856,21 +856,18 @@ impl<'g, T: BorrowMut<Transcript>, C: AffineRepr> Prover<'g, T, C> {
 
         let mid_degree = op_degree / 2;
 
-        // 1 comm => op_degree = 2
-        // 2 comm => op_degree = 4
-        // 3 comm => op_degree = 4
-        // 4 comm => op_degree = 6
-        // 5 comm => op_degree = 6
+        // 1 comm => op_degree = 4
+        // 2 comm => op_degree = 6
+        // 3 comm => op_degree = 8
         // etc.
-        // op_degree = 2 + 2 * floor(#comm / 2)
+        // op_degree = 2 * (#comm + 1)
 
         for (i, (sl, sr)) in sLsR.enumerate() {
             debug_assert!(i < self.secrets.a_L.len());
 
-            // The first (original) op_degree is 2, which permits a single vector commitment:
+            // Without vector commitments the (original) op_degree is 2:
             //
             // Left:
-            // 0 : com1
             // 1 : aL + wR
             // 2 : aO
             // 3 : sL
@@ -878,79 +875,32 @@ impl<'g, T: BorrowMut<Transcript>, C: AffineRepr> Prover<'g, T, C> {
             // Right:
             // 0 : Wo
             // 1 : aR + wL
-            // 2 : Wc1
             // 3 : sR
             //
-            // Since a_L and a_R must be at the same power, only even op_degrees are possible :(
-            // Hence the next valid op_degree is 4, which permits up to 3 vector commitments:
-            //
-            // Left:
-            // 0 : com1
-            // 1 : com2
-            // 2 : aL
-            // 3 : aO
-            // 4 : com3
-            // 5 : sL
-            //
-            // Right:
-            // 0 : Wc3
-            // 1 : Wo
-            // 2 : aR
-            // 3 : Wc2
-            // 4 : Wc1
-            // 5 : sR
-            //
-            // The next valid op_degree is 6, this permits up to 5 vector commitments:
-            //
-            // Left:
-            // 0 : com1
-            // 1 : com2
-            // 2 : com3
-            // 3 : aL
-            // 4 : aO
-            // 5 : com4
-            // 6 : com5
-            // 7 : sL
-            //
-            // Right:
-            // 0 : Wc5
-            // 1 : Wc4
-            // 2 : Wo
-            // 3 : aR
-            // 4 : Wc3
-            // 5 : Wc2
-            // 6 : Wc1
-            // 7 : sR
-            //
-            // Note that the x^0, x^1 term is zero.
-            // For every additional commitment r_poly degree increases by 2,
-            // but the number of zero terms increase by 1
-            //
-            // The op_degree is 6, the total degree is 11.
+            // A vector commitment at degree d of the left polynomial contributes whatever
+            // it contains at the H generators to degree d of the right polynomial.
+            // It must not meet another term at the op_degree, i.e. the left
+            // polynomial has to be zero at op_degree - d. Hence every commitment increases the op_degree
+            // by 2, e.g. for 2 commitments:
             //
             // Left:
             // 1 : com1
             // 2 : com2
-            // 3 : com3
-            // 4 : aL
-            // 5 : aO
-            // 6 : -
-            // 7 : -
-            // 8 : -
-            // 9 : sL
+            // 3 : aL + wR
+            // 4 : -
+            // 5 : -
+            // 6 : aO
+            // 7 : sL
             //
             // Right:
-            // 3 : Wo
-            // 4 : aR
-            // 5 : Wc3
-            // 6 : Wc2
-            // 7 : Wc1
-            // 8 : -
-            // 9 : sR
-            //
-            // op_degree is 8
-
-            // l_poly.0 = 0
+            // 0 : Wo
+            // 1 : -
+            // 2 : -
+            // 3 : aR + wL
+            // 4 : Wc2
+            // 5 : Wc1
+            // 6 : -
+            // 7 : sR
 
             // a_L and a_R constraints:
             //
diff --git a/bulletproofs/src/r1cs/verifier.rs b/bulletproofs/src/r1cs/verifier.rs
index b8089ad..ad57c86 100644
--- a/bulletproofs/src/r1cs/verifier.rs
+++ b/bulletproofs/src/r1cs/verifier.rs
@@ -18,7 +18,7 @@ use crate::generators::{BulletproofGens, PedersenGens};
 use crate::r1cs::Metrics;
 use crate::transcript::TranscriptProtocol;
 
-use super::op_splits;
+use super::{op_degree, op_splits};
 
 /// A [`ConstraintSystem`] implementation for use by the verifier.
 ///
@@ -486,8 +486,8 @@ impl<T: BorrowMut<Transcript>, C: AffineRepr> Verifier<T, C> {
         // number of commitments
         let ncomm = self.vec_comms.len();
 
-        // op_degree = 2 + 2 * floor(#comm / 2)
-        let op_degree = 2 + 2 * (ncomm / 2);
+        // op_degree = 2 * (#comm + 1)
+        let op_degree = op_degree(ncomm);
         let t_poly_deg = 2 * (op_degree + 1);
         let ops = op_splits(op_degree);
 
diff --git a/bulletproofs/src/util.rs b/bulletproofs/src/util.rs
index f3f1c91..72a4116 100644
--- a/bulletproofs/src/util.rs
+++ b/bulletproofs/src/util.rs
@@ -20,11 +20,15 @@ pub struct VecPoly1<F: Field>(pub Vec<F>, pub Vec<F>);
 #[derive(ZeroizeOnDrop)]
 pub struct VecPoly3<F: Field>(pub Vec<F>, pub Vec<F>, pub Vec<F>, pub Vec<F>);
 
-pub const T_LABELS: [&[u8]; 41] = [
+pub const T_LABELS: [&[u8]; 75] = [
     b"T_0", b"T_1", b"T_2", b"T_3", b"T_4", b"T_5", b"T_6", b"T_7", b"T_8", b"T_9", b"T_10",
     b"T_11", b"T_12", b"T_13", b"T_14", b"T_15", b"T_16", b"T_17", b"T_18", b"T_19", b"T_20",
     b"T_21", b"T_22", b"T_23", b"T_24", b"T_25", b"T_26", b"T_27", b"T_28", b"T_29", b"T_30",
     b"T_31", b"T_32", b"T_33", b"T_34", b"T_35", b"T_36", b"T_37", b"T_38", b"T_39", b"T_40",
+    b"T_41", b"T_42", b"T_43", b"T_44", b"T_45", b"T_46", b"T_47", b"T_48", b"T_49", b"T_50",
+    b"T_51", b"T_52", b"T_53", b"T_54", b"T_55", b"T_56", b"T_57", b"T_58", b"T_59", b"T_60",
+    b"T_61", b"T_62", b"T_63", b"T_64", b"T_65", b"T_66", b"T_67", b"T_68", b"T_69", b"T_70",
+    b"T_71", b"T_72", b"T_73", b"T_74",
 ];
 
 /// The general case for Vector CP.
-- 
2.43.0


From bf068005472208926c4296f515c0f4edca6eec66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:40 +0000
Subject: [PATCH 04/14] fix: reject inner product proofs with a different
 number of Ls and Rs

Surplus Rs were never absorbed into the transcript and missing Rs shifted the
scalars of the verification equation against its points.
---
 bulletproofs/src/inner_product_proof.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bulletproofs/src/inner_product_proof.rs b/bulletproofs/src/inner_product_proof.rs
index 7089839..1c9190f 100644
--- a/bulletproofs/src/inner_product_proof.rs
+++ b/bulletproofs/src/inner_product_proof.rs
@@ -261,6 +261,11 @@ impl<C: AffineRepr> InnerProductProof<C> {
             return Err(ProofError::VerificationError);
         }
 
+        // Every round has both an L and an R.
+        if self.R_vec.len() != lg_n {
+            return Err(ProofError::VerificationError);
+        }
+
         transcript.innerproduct_domain_sep(n as u64);
 
         // 1. Recompute x_k,...,x_1 based on the proof transcript
-- 
2.43.0


From 8c584950e8a3c5cde77e12482f542d915704cad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:50 +0000
Subject: [PATCH 05/14] fix: reject proofs whose T commitments do not match the
 constraint system

The checks were debug assertions: in release builds a proof with too few T
commitments panicked, and surplus ones as well as the one at the operation
degree were accepted without being bound to anything.
---
 bulletproofs/src/r1cs/verifier.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/bulletproofs/src/r1cs/verifier.rs b/bulletproofs/src/r1cs/verifier.rs
index ad57c86..910e248 100644
--- a/bulletproofs/src/r1cs/verifier.rs
+++ b/bulletproofs/src/r1cs/verifier.rs
@@ -502,7 +502,16 @@ impl<T: BorrowMut<Transcript>, C: AffineRepr> Verifier<T, C> {
         let op_aO = ops[1];
         let op_vec = &ops[2..];
 
-        debug_assert_eq!(t_poly_deg + 1, proof.T.len());
+        // The proof must contain a commitment to every term of t(x),
+        // except for the one at the op_degree which is evaluated by the verifier.
+        if proof.T.len() != t_poly_deg + 1 || !proof.T[op_degree].is_zero() {
+            return Err(R1CSError::VerificationError);
+        }
+
+        // Vector commitments are not supported together with 2nd phase commitments.
+        if ncomm > 0 && !(proof.A_I2.is_zero() && proof.A_O2.is_zero() && proof.S2.is_zero()) {
+            return Err(R1CSError::VerificationError);
+        }
 
         transcript.validate_and_append_point(b"A_I1", &proof.A_I1)?;
         transcript.validate_and_append_point(b"A_O1", &proof.A_O1)?;
@@ -653,9 +662,6 @@ impl<T: BorrowMut<Transcript>, C: AffineRepr> Verifier<T, C> {
             }
         }
 
-        debug_assert_eq!(proof.T[op_degree], C::zero());
-        debug_assert_eq!(proof.T.len(), t_poly_deg + 1);
-
         // homomorphically evaluate t polynomial at x
         let mut T_points = vec![];
         let mut T_scalars = vec![];
@@ -671,10 +677,6 @@ impl<T: BorrowMut<Transcript>, C: AffineRepr> Verifier<T, C> {
             T_scalars.push(rxs[d]);
         }
 
-        debug_assert!(ncomm == 0 || proof.A_I2 == C::zero());
-        debug_assert!(ncomm == 0 || proof.A_O2 == C::zero());
-        debug_assert!(ncomm == 0 || proof.S2 == C::zero());
-
         let xI = xs[op_aLaR.0];
         let xO = xs[op_aO.0];
         let xS = xs[op_degree + 1];
-- 
2.43.0


From 1702dc0a1324c4db1f1618a9c487c3a9a4d28854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:00 +0000
Subject: [PATCH 06/14] fix: batch verification of proofs of different sizes

The proof independent scalars [B, B_blinding, G, H] of all proofs were zipped,
which truncates them to the smallest proof and adds scalars of G to those
of H whenever the sizes differ. An empty batch panicked.
---
 bulletproofs/src/r1cs/verifier.rs | 58 +++++++++++++++++--------------
 1 file changed, 31 insertions(+), 27 deletions(-)

diff --git a/bulletproofs/src/r1cs/verifier.rs b/bulletproofs/src/r1cs/verifier.rs
index 910e248..5861087 100644
--- a/bulletproofs/src/r1cs/verifier.rs
+++ b/bulletproofs/src/r1cs/verifier.rs
@@ -737,37 +737,41 @@ pub fn batch_verify<C: AffineRepr>(
     bp_gens: &BulletproofGens<C>,
 ) -> Result<(), R1CSError> {
     let mut rng = rand::thread_rng();
-    let mut ver_iter = verification_tuples.into_iter();
-    let vt = ver_iter.next().unwrap();
-    let (mut proof_points, mut proof_point_scalars, mut linear_combination) = (
-        vt.proof_dependent_points,
-        vt.proof_dependent_scalars,
-        vt.proof_independent_scalars,
-    );
-    let padded_n = (linear_combination.len() - 2) / 2;
-
-    for mut vt in ver_iter {
+    // The proofs may be of different sizes.
+    let padded_n = match verification_tuples
+        .iter()
+        .map(|vt| (vt.proof_independent_scalars.len() - 2) / 2)
+        .max()
+    {
+        Some(n) => n,
+        None => return Ok(()),
+    };
+
+    let mut proof_points = Vec::new();
+    let mut proof_point_scalars = Vec::new();
+    // Scalars of B, B_blinding, G(padded_n) and H(padded_n)
+    let mut linear_combination = vec![C::ScalarField::zero(); 2 + 2 * padded_n];
+
+    // The first equation need not be randomized
+    let mut random_scalar = C::ScalarField::one();
+    for mut vt in verification_tuples {
         proof_points.append(&mut vt.proof_dependent_points);
 
-        // Sample random scalar
-        let random_scalar = C::ScalarField::rand(&mut rng);
-
         // Multiply all scalars
-        let ps = vt
-            .proof_dependent_scalars
-            .into_iter()
-            .map(|s| s * random_scalar);
-        let fps = vt
-            .proof_independent_scalars
-            .into_iter()
-            .map(|s| s * random_scalar);
+        proof_point_scalars.extend(
+            vt.proof_dependent_scalars
+                .into_iter()
+                .map(|s| s * random_scalar),
+        );
+        let n = (vt.proof_independent_scalars.len() - 2) / 2;
+        for (i, s) in vt.proof_independent_scalars.into_iter().enumerate() {
+            // The scalars of H follow those of G
+            let i = if i < 2 + n { i } else { i + padded_n - n };
+            linear_combination[i] += s * random_scalar;
+        }
 
-        proof_point_scalars.append(&mut ps.collect());
-        linear_combination = linear_combination
-            .iter()
-            .zip(fps)
-            .map(|(a, b)| *a + b)
-            .collect()
+        // Sample random scalar
+        random_scalar = C::ScalarField::rand(&mut rng);
     }
 
     // We are performing a single-party circuit proof, so party index is 0.
-- 
2.43.0


From 530329e8d51f9d8c98a3157bd4eb5a7867aac907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:43 +0000
Subject: [PATCH 07/14] fix: curve_check multiplies the coefficient A with x

It was multiplied with x^2, which is a different curve for any A != 0.
---
 relations/src/curve.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/relations/src/curve.rs b/relations/src/curve.rs
index 194c7c4..ec3946c 100644
--- a/relations/src/curve.rs
+++ b/relations/src/curve.rs
@@ -11,13 +11,13 @@ pub fn curve_check<F: Field, Cs: ConstraintSystem<F>>(
     b: F,
 ) {
     let (_, _, x_squared) = cs.multiply(x.clone(), x.clone());
-    let (_, _, x_cubed) = cs.multiply(x, x_squared.into());
+    let (_, _, x_cubed) = cs.multiply(x.clone(), x_squared.into());
     let (_, _, y_squared) = cs.multiply(y.clone(), y);
 
-    // x^3 + A*x^2 + B - y^2 = 0
+    // x^3 + A*x + B - y^2 = 0
     cs.constrain(
         LinearCombination::<F>::from(x_cubed)
-            + LinearCombination::<F>::from(x_squared).scalar_mul(a)
+            + x.scalar_mul(a)
             + b
             - y_squared,
     )
-- 
2.43.0


From 29c2b62f7b08327d9b96a82fcf9a54fb7ee38800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:43 +0000
Subject: [PATCH 08/14] fix: refuse proof encodings with an unknown phase
 marker

Every value other than 1 was decoded as a one phase proof.
---
 bulletproofs/src/r1cs/proof.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bulletproofs/src/r1cs/proof.rs b/bulletproofs/src/r1cs/proof.rs
index 91f3d93..bc5a0a3 100644
--- a/bulletproofs/src/r1cs/proof.rs
+++ b/bulletproofs/src/r1cs/proof.rs
@@ -147,8 +147,10 @@ impl<C: AffineRepr> CanonicalDeserialize for R1CSProof<C> {
                 C::deserialize_with_mode(&mut reader, compress, validate)?,
                 C::deserialize_with_mode(&mut reader, compress, validate)?,
             )
-        } else {
+        } else if flag == ONE_PHASE_COMMITMENTS {
             (C::zero(), C::zero(), C::zero())
+        } else {
+            return Err(SerializationError::InvalidData);
         };
         Ok(Self {
             A_I1,
-- 
2.43.0


From 73e3646e126ce0b7c70f550a22726ffd8ba8fbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:43 +0000
Subject: [PATCH 09/14] fix: verifiers refuse paths of the wrong length in
 release builds

The number of levels was only compared to the height of the tree by a debug
assertion, and not at all when verifying a payment, so that e.g. a
rerandomized inner node was accepted as a leaf.
---
 relations/src/batched_curve_tree_verifier.rs | 10 +++++-----
 relations/src/curve_tree_verifier.rs         | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/relations/src/batched_curve_tree_verifier.rs b/relations/src/batched_curve_tree_verifier.rs
index 4f5041b..aac2e07 100644
--- a/relations/src/batched_curve_tree_verifier.rs
+++ b/relations/src/batched_curve_tree_verifier.rs
@@ -54,6 +54,11 @@ impl<
                 randomized_path.even_commitments = even_commitments_with_root;
             }
         };
+        // The even and odd commitments do not include the selected leaves, their sum should equal the height of the tree.
+        assert_eq!(
+            self.height(),
+            randomized_path.even_commitments.len() + randomized_path.odd_commitments.len()
+        );
     }
 }
 
@@ -74,11 +79,6 @@ impl<
         parameters: &SelRerandParameters<P0, P1>,
     ) -> [Affine<P0>; M] {
         self.batched_select_and_rerandomize_verification_commitments(&mut randomized_path);
-        // The even and odd commitments do not include the selected leaves, their sum should equal the height of the tree.
-        debug_assert_eq!(
-            self.height(),
-            randomized_path.even_commitments.len() + randomized_path.odd_commitments.len()
-        );
 
         randomized_path.even_verifier_gadget(even_verifier, parameters, self);
         randomized_path.odd_verifier_gadget(odd_verifier, parameters, self);
diff --git a/relations/src/curve_tree_verifier.rs b/relations/src/curve_tree_verifier.rs
index 1402234..471526f 100644
--- a/relations/src/curve_tree_verifier.rs
+++ b/relations/src/curve_tree_verifier.rs
@@ -44,6 +44,11 @@ impl<
                 randomized_path.even_commitments = even_commitments_with_root;
             }
         };
+        // The even and odd commitments do not include the selected leaf, their sum should equal the height of the tree.
+        assert_eq!(
+            self.height(),
+            randomized_path.even_commitments.len() + randomized_path.odd_commitments.len()
+        );
     }
 }
 
@@ -64,11 +69,6 @@ impl<
         parameters: &SelRerandParameters<P0, P1>,
     ) -> Affine<P0> {
         self.select_and_rerandomize_verification_commitments(&mut randomized_path);
-        // The even and odd commitments do not include the selected leaf, their sum should equal the height of the tree.
-        debug_assert_eq!(
-            self.height(),
-            randomized_path.even_commitments.len() + randomized_path.odd_commitments.len()
-        );
 
         randomized_path.even_verifier_gadget(even_verifier, parameters, self);
         randomized_path.odd_verifier_gadget(odd_verifier, parameters, self);
-- 
2.43.0


From c76ac368fc5b2a7b65a47719ac904e506eac9fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:43 +0000
Subject: [PATCH 10/14] fix: bind the rerandomized sum of a batched selection
 to the transcript

The public output of the batched relation did not affect the challenges of the
proof it belongs to, as it does in the unbatched relation.
---
 relations/src/single_level_select_and_rerandomize.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/relations/src/single_level_select_and_rerandomize.rs b/relations/src/single_level_select_and_rerandomize.rs
index 343128c..433e898 100644
--- a/relations/src/single_level_select_and_rerandomize.rs
+++ b/relations/src/single_level_select_and_rerandomize.rs
@@ -141,6 +141,16 @@ pub fn single_level_batched_select_and_rerandomize<
     children_plus_delta: Option<&[Affine<C2>; M]>, // Witnesses of the commitments being selected and rerandomized
     randomness_offset: Option<Fb>, // The scalar used for randomizing, i.e. \sum selected_witnesses + randomness_offset * H = sum_of_rerandomized + M * Delta
 ) {
+    // Add the rerandomized sum of the children to the transcript
+    {
+        let mut bytes = Vec::new();
+        if let Err(e) = sum_of_rerandomized.serialize_compressed(&mut bytes) {
+            panic!("{}", e)
+        }
+        cs.transcript()
+            .append_message(b"sum_of_rerandomized", &bytes);
+    }
+
     // Initialize the accumulated sum of the selected children to dummy values.
     let mut sum_of_selected = PointRepresentation {
         x: Variable::One(PhantomData).into(),
-- 
2.43.0


From 466eab9e681b38d467cc322c763e037163124a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:43 +0000
Subject: [PATCH 11/14] fix: reject payments with invalid signatures

Schnorr::verify reports an invalid signature as Ok(false), which was ignored.
---
 relations/src/coin.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/relations/src/coin.rs b/relations/src/coin.rs
index ade836a..eff63e3 100644
--- a/relations/src/coin.rs
+++ b/relations/src/coin.rs
@@ -664,7 +664,7 @@ impl<
         pk0: &PublicKey<C>,
         pk1: &PublicKey<C>,
     ) {
-        Schnorr::verify(
+        let valid_0 = Schnorr::verify(
             sig_parameters,
             pk0,
             self.pour_bytes.as_slice(),
@@ -674,7 +674,7 @@ impl<
             },
         )
         .unwrap();
-        Schnorr::verify(
+        let valid_1 = Schnorr::verify(
             sig_parameters,
             pk1,
             self.pour_bytes.as_slice(),
@@ -684,6 +684,7 @@ impl<
             },
         )
         .unwrap();
+        assert!(valid_0 && valid_1, "invalid signature");
     }
 }
 
-- 
2.43.0


From 77d267675bc7d07e3c00a7ca67203caa28266bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:56 +0000
Subject: [PATCH 12/14] fix: re_randomize constrains the first accumulator to
 the first table entry

---
 relations/src/rerandomize.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/relations/src/rerandomize.rs b/relations/src/rerandomize.rs
index eba907c..53bc053 100644
--- a/relations/src/rerandomize.rs
+++ b/relations/src/rerandomize.rs
@@ -152,6 +152,10 @@ pub fn re_randomize<
                 // enforce incomplete curve addition
                 incomplete_curve_addition(cs, &prms);
             }
+        } else {
+            // Enforce R_1 = (x_1, y_1)
+            cs.constrain(acc_i_x_lc.clone() - x_table);
+            cs.constrain(acc_i_y_lc.clone() - y_table);
         }
         acc_i_minus_1_x_lc = acc_i_x_lc;
         acc_i_minus_1_y_lc = acc_i_y_lc;
-- 
2.43.0


From 581071b539de78cb0f2221769a85711733d0be55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:39 +0000
Subject: [PATCH 13/14] fix: exclude a degenerate addition in the second to
 last window of re_randomize

---
 relations/src/rerandomize.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/relations/src/rerandomize.rs b/relations/src/rerandomize.rs
index 53bc053..41dc850 100644
--- a/relations/src/rerandomize.rs
+++ b/relations/src/rerandomize.rs
@@ -109,7 +109,7 @@ pub fn re_randomize<
                 } else {
                     None
                 };
-                let x_left_minus_x_right_inv = if i == m {
+                let x_left_minus_x_right_inv = if i >= m - 1 {
                     // compute x_l-x_r inverse for checked addition
                     Some(F::one() / (x_left - x_right))
                 } else {
@@ -145,8 +145,9 @@ pub fn re_randomize<
                 y_o: acc_i_y_lc.clone(),
                 delta,
             };
-            if i == m {
+            if i >= m - 1 {
                 // enforce checked curve addition
+                // (the table of window m - 1 wraps around the group order, so R_i-1 may be its entry)
                 checked_curve_addition(cs, &prms, x_l_minus_x_r_inv);
             } else {
                 // enforce incomplete curve addition
-- 
2.43.0


From f1c53a5c621a7705b1000cea84f54b669cbc24cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:23 +0000
Subject: [PATCH 14/14] verif hook: record the constraint systems handed over
 for proving and verification

---
 bulletproofs/src/r1cs/mod.rs       |  2 ++
 bulletproofs/src/r1cs/prover.rs    | 19 ++++++++++++++
 bulletproofs/src/r1cs/verif_log.rs | 41 ++++++++++++++++++++++++++++++
 bulletproofs/src/r1cs/verifier.rs  | 15 +++++++++++
 4 files changed, 77 insertions(+)
 create mode 100644 bulletproofs/src/r1cs/verif_log.rs

diff --git a/bulletproofs/src/r1cs/mod.rs b/bulletproofs/src/r1cs/mod.rs
index f258278..a2e646c 100644
--- a/bulletproofs/src/r1cs/mod.rs
+++ b/bulletproofs/src/r1cs/mod.rs
@@ -4,6 +4,8 @@ mod metrics;
 mod proof;
 mod prover;
 mod verifier;
+#[cfg(verif_hooks)]
+pub mod verif_log;
 
 pub use self::constraint_system::{
     ConstraintSystem, RandomizableConstraintSystem, RandomizedConstraintSystem,
diff --git a/bulletproofs/src/r1cs/prover.rs b/bulletproofs/src/r1cs/prover.rs
index 2472ede..0f19e84 100644
--- a/bulletproofs/src/r1cs/prover.rs
+++ b/bulletproofs/src/r1cs/prover.rs
@@ -503,6 +503,8 @@ impl<'g, T: BorrowMut<Transcript>, C: AffineRepr> Prover<'g, T, C> {
         mut self,
         bp_gens: &BulletproofGens<C>,
     ) -> Result<(R1CSProof<C>, T), R1CSError> {
+        #[cfg(verif_hooks)]
+        self.verif_record();
         // pad
         while self.size() > self.secrets.a_L.len() {
             self.allocate_multiplier(Some((C::ScalarField::zero(), C::ScalarField::zero())))?;
@@ -1152,6 +1154,23 @@ impl<'g, T: BorrowMut<Transcript>, C: AffineRepr> Prover<'g, T, C> {
         &self.constraints
     }
 
+    fn verif_record(&self) {
+        super::verif_log::record(|| super::verif_log::Seen::<C> {
+            prover: true,
+            constraints: self.constraints.clone(),
+            num_vars: self.secrets.a_L.len(),
+            vec_comms: Default::default(),
+            gates: [
+                self.secrets.a_L.clone(),
+                self.secrets.a_R.clone(),
+                self.secrets.a_O.clone(),
+            ],
+            vec_open: self.secrets.vec_open.clone(),
+            scalar_comms: self.secrets.v.len(),
+            transcript: self.transcript.borrow().clone(),
+        });
+    }
+
     /// Verification hook: the gate assignments `(a_L, a_R, a_O)`.
     #[allow(clippy::type_complexity)]
     pub fn verif_gates(&self) -> (&[C::ScalarField], &[C::ScalarField], &[C::ScalarField]) {
diff --git a/bulletproofs/src/r1cs/verif_log.rs b/bulletproofs/src/r1cs/verif_log.rs
new file mode 100644
index 0000000..5678ff4
--- /dev/null
+++ b/bulletproofs/src/r1cs/verif_log.rs
@@ -0,0 +1,41 @@
+//! Verification hook: the constraint systems handed over for proving and verification.
+use super::linear_combination::LinearCombination;
+use ark_ec::AffineRepr;
+use core::any::Any;
+use core::sync::atomic::{AtomicBool, Ordering};
+use merlin::Transcript;
+use std::boxed::Box;
+use std::sync::Mutex;
+use std::vec::Vec;
+
+/// A constraint system at the moment its proof is computed or checked.
+pub struct Seen<C: AffineRepr> {
+    pub prover: bool,
+    pub constraints: Vec<LinearCombination<C::ScalarField>>,
+    pub num_vars: usize,
+    /// verifier: vector commitments with their dimension
+    pub vec_comms: Vec<(C, usize)>,
+    /// prover: assignments to the gates
+    pub gates: [Vec<C::ScalarField>; 3],
+    /// prover: openings of the vector commitments
+    pub vec_open: Vec<(C::ScalarField, Vec<C::ScalarField>)>,
+    /// number of scalar commitments
+    pub scalar_comms: usize,
+    pub transcript: Transcript,
+}
+
+/// Recording is off by default.
+pub static ON: AtomicBool = AtomicBool::new(false);
+
+/// `Seen`s in the order of the calls.
+pub static LOG: Mutex<Vec<Box<dyn Any + Send>>> = Mutex::new(Vec::new());
+
+pub(super) fn record<C: AffineRepr>(seen: impl FnOnce() -> Seen<C>) {
+    if !ON.load(Ordering::SeqCst) {
+        return;
+    }
+    let seen = seen();
+    if let Ok(mut log) = LOG.lock() {
+        log.push(Box::new(seen));
+    }
+}
diff --git a/bulletproofs/src/r1cs/verifier.rs b/bulletproofs/src/r1cs/verifier.rs
index 5861087..8ce685f 100644
--- a/bulletproofs/src/r1cs/verifier.rs
+++ b/bulletproofs/src/r1cs/verifier.rs
@@ -469,6 +469,8 @@ impl<T: BorrowMut<Transcript>, C: AffineRepr> Verifier<T, C> {
         mut self,
         proof: &R1CSProof<C>,
     ) -> Result<VerificationTuple<C>, R1CSError> {
+        #[cfg(verif_hooks)]
+        self.verif_record();
         // pad
         while self.size() > self.num_vars {
             self.allocate_multiplier(None)?;
@@ -814,6 +816,19 @@ impl<T: BorrowMut<Transcript>, C: AffineRepr> Verifier<T, C> {
         &self.constraints
     }
 
+    fn verif_record(&self) {
+        super::verif_log::record(|| super::verif_log::Seen::<C> {
+            prover: false,
+            constraints: self.constraints.clone(),
+            num_vars: self.num_vars,
+            vec_comms: self.vec_comms.clone(),
+            gates: Default::default(),
+            vec_open: Default::default(),
+            scalar_comms: self.V.len(),
+            transcript: self.transcript.borrow().clone(),
+        });
+    }
+
     /// Verification hook: the number of multiplication gates.
     pub fn verif_num_vars(&self) -> usize {
         self.num_vars
-- 
2.43.0

