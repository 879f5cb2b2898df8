From f53ff77f71ea411b7886073f545ae1c8c47e9ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:04 +0000
Subject: [PATCH 01/21] hook: read-only circuit views for the model-checking
 harness (cfg mc_hooks)

---
 src/r1cs/prover.rs   | 18 ++++++++++++++++++
 src/r1cs/verifier.rs |  9 +++++++++
 2 files changed, 27 insertions(+)

diff --git a/src/r1cs/prover.rs b/src/r1cs/prover.rs
index 1d05bc8..5db5ba0 100644
--- a/src/r1cs/prover.rs
+++ b/src/r1cs/prover.rs
@@ -761,3 +761,21 @@ impl<'a, 'b> RandomizedConstraintSystem for RandomizingProver<'a, 'b> {
         self.prover.transcript.challenge_scalar(label)
     }
 }
+
+/// Read-only view of the circuit and witness built so far, for the model-checking harness. Compiled only with `--cfg mc_hooks`.
+#[cfg(mc_hooks)]
+impl<'a, 'b> Prover<'a, 'b> {
+    /// Returns (linear constraints, [a_L, a_R, a_O, v, v_blinding]).
+    pub fn mc_view(&self) -> (Vec<LinearCombination>, [FieldElementVector; 5]) {
+        (
+            self.constraints.clone(),
+            [
+                self.a_L.clone(),
+                self.a_R.clone(),
+                self.a_O.clone(),
+                self.v.clone(),
+                self.v_blinding.clone(),
+            ],
+        )
+    }
+}
diff --git a/src/r1cs/verifier.rs b/src/r1cs/verifier.rs
index e8e0fe1..79f9cce 100644
--- a/src/r1cs/verifier.rs
+++ b/src/r1cs/verifier.rs
@@ -598,3 +598,12 @@ impl<'a, 'b> RandomizedConstraintSystem for RandomizingVerifier<'a> {
         self.verifier.transcript.challenge_scalar(label)
     }
 }
+
+/// Read-only view of the circuit built so far, for the model-checking harness. Compiled only with `--cfg mc_hooks`.
+#[cfg(mc_hooks)]
+impl<'a> Verifier<'a> {
+    /// Returns (linear constraints, number of multipliers, commitments).
+    pub fn mc_view(&self) -> (Vec<LinearCombination>, usize, Vec<G1>) {
+        (self.constraints.clone(), self.num_vars, self.V.clone())
+    }
+}
-- 
2.43.0


From ed00abbaae118626a1773d0972572972db600a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:44 +0000
Subject: [PATCH 02/21] fix: verify proofs of circuits with at most 1
 multiplier (empty inner product challenges)

---
 src/ipp.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ipp.rs b/src/ipp.rs
index 80807f1..5ec8064 100644
--- a/src/ipp.rs
+++ b/src/ipp.rs
@@ -292,7 +292,12 @@ impl IPP {
         let mut challenges_sq = Vec::with_capacity(lg_n);
         let mut challenges_inv_sq = Vec::with_capacity(lg_n);
 
-        let (challenges_inv, product_chal_inv) = FieldElement::batch_invert(&challenges);
+        // There are no challenges when n is 1, in which case the (empty) product is 1.
+        let (challenges_inv, product_chal_inv) = if challenges.is_empty() {
+            (vec![], FieldElement::one())
+        } else {
+            FieldElement::batch_invert(&challenges)
+        };
         for i in 0..challenges.len() {
             challenges_sq.push(challenges[i].square());
             challenges_inv_sq.push(challenges_inv[i].square());
-- 
2.43.0


From 58c778d8d8749a737559f03b440731f195b9d25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:59 +0000
Subject: [PATCH 03/21] fix: inner product verifier returns an error, not a
 panic, on malformed proofs and lengths

---
 src/ipp.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ipp.rs b/src/ipp.rs
index 5ec8064..184e280 100644
--- a/src/ipp.rs
+++ b/src/ipp.rs
@@ -215,7 +215,11 @@ impl IPP {
         L_vec: &G1Vector,
         R_vec: &G1Vector,
     ) -> Result<(), R1CSError> {
-        let (u_sq, u_inv_sq, s) = Self::verification_scalars(L_vec, R_vec, n, transcript).unwrap();
+        if G.len() != n || H.len() != n || G_factors.len() != n || H_factors.len() != n {
+            return Err(R1CSError::VerificationError);
+        }
+
+        let (u_sq, u_inv_sq, s) = Self::verification_scalars(L_vec, R_vec, n, transcript)?;
 
         let g_times_a_times_s = G_factors
             .iter()
@@ -271,7 +275,7 @@ impl IPP {
             // and this check prevents overflow in 1<<lg_n below.
             return Err(R1CSError::VerificationError);
         }
-        if n != (1 << lg_n) {
+        if n != (1 << lg_n) || R_vec.len() != lg_n {
             return Err(R1CSError::VerificationError);
         }
 
-- 
2.43.0


From 916cd770fba918cc13a79d2e2729b57d3b3bc520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:59 +0000
Subject: [PATCH 04/21] fix: check the length of both generator vectors when
 proving and verifying

---
 src/r1cs/prover.rs   | 4 ++--
 src/r1cs/verifier.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/r1cs/prover.rs b/src/r1cs/prover.rs
index 5db5ba0..0c6e9e2 100644
--- a/src/r1cs/prover.rs
+++ b/src/r1cs/prover.rs
@@ -329,7 +329,7 @@ impl<'a, 'b> Prover<'a, 'b> {
         // Commit to the first-phase low-level witness variables.
         let n1 = self.a_L.len();
 
-        if G.len() < n1 {
+        if G.len() < n1 || H.len() < n1 {
             return Err(R1CSError::InvalidGeneratorsLength);
         }
 
@@ -376,7 +376,7 @@ impl<'a, 'b> Prover<'a, 'b> {
         let padded_n = n.next_power_of_two();
         let pad = padded_n - n;
 
-        if G.len() < padded_n {
+        if G.len() < padded_n || H.len() < padded_n {
             return Err(R1CSError::InvalidGeneratorsLength);
         }
 
diff --git a/src/r1cs/verifier.rs b/src/r1cs/verifier.rs
index 79f9cce..2ea7d23 100644
--- a/src/r1cs/verifier.rs
+++ b/src/r1cs/verifier.rs
@@ -294,7 +294,7 @@ impl<'a> Verifier<'a> {
 
         use std::iter;
 
-        if G.len() < padded_n {
+        if G.len() < padded_n || H.len() < padded_n {
             return Err(R1CSError::InvalidGeneratorsLength);
         }
 
-- 
2.43.0


From 3e169eced996046e1a03f931cd98b7d99278bf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:36 +0000
Subject: [PATCH 05/21] fix: reject proofs and commitments with points that are
 not on the curve

---
 src/ipp.rs           |  6 ++++++
 src/r1cs/verifier.rs | 25 +++++++++++++++++++++++++
 src/utils/mod.rs     | 15 +++++++++++++++
 3 files changed, 46 insertions(+)

diff --git a/src/ipp.rs b/src/ipp.rs
index 184e280..2250a42 100644
--- a/src/ipp.rs
+++ b/src/ipp.rs
@@ -4,6 +4,7 @@
 
 use crate::errors::R1CSError;
 use crate::transcript::TranscriptProtocol;
+use crate::utils::is_on_curve;
 use amcl_wrapper::field_elem::{FieldElement, FieldElementVector};
 use amcl_wrapper::group_elem::{GroupElement, GroupElementVector};
 use amcl_wrapper::group_elem_g1::{G1Vector, G1};
@@ -219,6 +220,11 @@ impl IPP {
             return Err(R1CSError::VerificationError);
         }
 
+        // The points come from the prover, they might not be on the curve
+        if !is_on_curve(P) || !L_vec.iter().chain(R_vec.iter()).all(is_on_curve) {
+            return Err(R1CSError::FormatError);
+        }
+
         let (u_sq, u_inv_sq, s) = Self::verification_scalars(L_vec, R_vec, n, transcript)?;
 
         let g_times_a_times_s = G_factors
diff --git a/src/r1cs/verifier.rs b/src/r1cs/verifier.rs
index 2ea7d23..880698f 100644
--- a/src/r1cs/verifier.rs
+++ b/src/r1cs/verifier.rs
@@ -17,6 +17,7 @@ use crate::r1cs::constraint_system::RandomizedConstraintSystem;
 use crate::r1cs::linear_combination::LinearCombination;
 use crate::r1cs::linear_combination::Variable;
 use crate::r1cs::proof::R1CSProof;
+use crate::utils::is_on_curve;
 
 /// A [`ConstraintSystem`] implementation for use by the verifier.
 ///
@@ -272,6 +273,30 @@ impl<'a> Verifier<'a> {
         G: &G1Vector,
         H: &G1Vector,
     ) -> Result<(), R1CSError> {
+        // The points come from the prover, they might not be on the curve
+        let points_valid = [
+            &proof.A_I1,
+            &proof.A_O1,
+            &proof.S1,
+            &proof.A_I2,
+            &proof.A_O2,
+            &proof.S2,
+            &proof.T_1,
+            &proof.T_3,
+            &proof.T_4,
+            &proof.T_5,
+            &proof.T_6,
+        ]
+        .iter()
+        .map(|p| *p)
+        .chain(proof.ipp_proof.L.iter())
+        .chain(proof.ipp_proof.R.iter())
+        .chain(self.V.iter())
+        .all(is_on_curve);
+        if !points_valid {
+            return Err(R1CSError::FormatError);
+        }
+
         // Commit a length _suffix_ for the number of high-level variables.
         // We cannot do this in advance because user can commit variables one-by-one,
         // but this suffix provides safe disambiguation because each variable
diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 8b57797..940242b 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -22,6 +22,21 @@ pub fn get_generators(prefix: &str, n: usize) -> Vec<G1> {
     gens
 }
 
+/// Returns whether the coordinates are those of a point on the curve. Deserialization does not
+/// check it, and arithmetic with coordinates like (0, 0, 0) yields the "identity" for any scalar.
+pub fn is_on_curve(p: &G1) -> bool {
+    let bytes = p.to_bytes();
+    if p.is_identity() {
+        bytes.iter().skip(1).any(|b| *b != 0)
+    } else {
+        // Decoding gives the identity when the coordinates do not satisfy the curve equation
+        match G1::from_bytes(&bytes) {
+            Ok(q) => !q.is_identity(),
+            Err(_) => false,
+        }
+    }
+}
+
 pub fn gen_challenges(input: &[&G1], state: &mut Vec<u8>, n: usize) -> Vec<FieldElement> {
     let mut r = Vec::<FieldElement>::with_capacity(n);
     for i in 0..input.len() {
-- 
2.43.0


From 7c40bc05324d6b61c0444e3d9fa3185090973b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:56 +0000
Subject: [PATCH 06/21] fix: Hamming distance gadget ties each difference to
 the committed value

The difference variable was never constrained to original[i] - new[i], so a prover could
prove any count. The pair was also taken by two allocate_single calls, which is not one
multiplier when another single allocation is pending.
---
 src/r1cs/gadgets/hamming_distance.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/r1cs/gadgets/hamming_distance.rs b/src/r1cs/gadgets/hamming_distance.rs
index 7c7d433..7febb26 100644
--- a/src/r1cs/gadgets/hamming_distance.rs
+++ b/src/r1cs/gadgets/hamming_distance.rs
@@ -28,19 +28,15 @@ pub fn hamming_distance_gadget<CS: ConstraintSystem>(
     let mut result = Vec::<Variable>::new();
     for i in 0..new.len() {
         let diff = original[i].variable - new[i].clone();
-        let val_diff = cs.evaluate_lc(&diff);
-        let (val_diff, val_diff_inv) = match val_diff {
-            Some(l) => {
-                let inv = l.inverse();
-                (Some(l), Some(inv))
-            }
-            None => (None, None),
-        };
+        let vals = cs.evaluate_lc(&diff).map(|l| {
+            let inv = l.inverse();
+            (l, inv)
+        });
 
         // diff * diff_inv = 1_or_0 depending on diff being non-zero or zero
-        let (var_diff, _) = cs.allocate_single(val_diff)?;
-        let (_, var_o) = cs.allocate_single(val_diff_inv)?;
-        let var_1_or_0 = var_o.unwrap();
+        let (var_diff, _, var_1_or_0) = cs.allocate_multiplier(vals)?;
+        // var_diff is the difference of the committed and the new value
+        cs.constrain(diff - var_diff);
 
         // diff * (1 - 1_or_0) = 0
         let one_minus_var_1_or_0 = Variable::One() - var_1_or_0;
-- 
2.43.0


From b5149009e3b7d5c5b758013cfbde54bad1768c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:56 +0000
Subject: [PATCH 07/21] fix: Poseidon inverse S-box ties its variable to the
 S-box input

var_l was never constrained to the input plus round key, so a prover could pick every
S-box output freely and prove any hash. Also allocate the pair as one multiplier, which two
allocate_single calls are not when another single allocation is pending.
---
 src/r1cs/gadgets/helper_constraints/poseidon.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/r1cs/gadgets/helper_constraints/poseidon.rs b/src/r1cs/gadgets/helper_constraints/poseidon.rs
index 5599826..7b8af3f 100644
--- a/src/r1cs/gadgets/helper_constraints/poseidon.rs
+++ b/src/r1cs/gadgets/helper_constraints/poseidon.rs
@@ -183,17 +183,20 @@ impl SboxType {
     ) -> Result<Variable, R1CSError> {
         let inp_plus_const: LinearCombination = input_var + round_key;
 
-        let val_l = cs.evaluate_lc(&inp_plus_const);
-        let val_r = val_l.clone().map(|l| l.inverse());
+        let vals = cs.evaluate_lc(&inp_plus_const).map(|l| {
+            let inv = l.inverse();
+            (l, inv)
+        });
 
-        let (var_l, _) = cs.allocate_single(val_l)?;
-        let (var_r, var_o) = cs.allocate_single(val_r)?;
+        let (var_l, var_r, var_o) = cs.allocate_multiplier(vals)?;
+        // var_l is the S-box input
+        cs.constrain(inp_plus_const - var_l);
 
         // Ensure `inp_plus_const` is not zero
         is_nonzero_gadget(cs, var_l, var_r)?;
 
         // Constrain product of ``inp_plus_const` and its inverse to be 1.
-        constrain_lc_with_scalar::<CS>(cs, var_o.unwrap().into(), &FieldElement::one());
+        constrain_lc_with_scalar::<CS>(cs, var_o.into(), &FieldElement::one());
 
         Ok(var_r)
     }
-- 
2.43.0


From 00e8c358bb2f4d30e42de2732db32a44a77dfffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:57 +0000
Subject: [PATCH 08/21] fix: set_membership_alt ties the bit used in the
 product to the committed bit

The left input of the product was an unconstrained variable, so membership of 0 (and of any
value that is a suitable multiple) could be proved for any set.
---
 src/r1cs/gadgets/set_membership_alt.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/r1cs/gadgets/set_membership_alt.rs b/src/r1cs/gadgets/set_membership_alt.rs
index 1ac5c5a..116c105 100644
--- a/src/r1cs/gadgets/set_membership_alt.rs
+++ b/src/r1cs/gadgets/set_membership_alt.rs
@@ -69,6 +69,8 @@ pub fn vector_product_gadget<CS: ConstraintSystem>(
                 .as_ref()
                 .map(|bit| (bit.clone(), items[i].into())),
         )?;
+        // bit_var is the committed bit
+        cs.constrain(bit_var - vector[i].variable);
         constrain_lc_with_scalar::<CS>(cs, item_var.into(), &items[i].into());
 
         let (_, _, o2) = cs.multiply(bit_var.into(), value.variable.into());
-- 
2.43.0


From 99c933289cef801fbce5590ab80d6d513109d787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:57 +0000
Subject: [PATCH 09/21] fix: set_membership_alt proves membership in a set with
 repeated elements

Every occurrence of the value was marked, so the bitmap did not sum to 1 and the honest proof
was rejected.
---
 src/r1cs/gadgets/set_membership_alt.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/r1cs/gadgets/set_membership_alt.rs b/src/r1cs/gadgets/set_membership_alt.rs
index 116c105..0844405 100644
--- a/src/r1cs/gadgets/set_membership_alt.rs
+++ b/src/r1cs/gadgets/set_membership_alt.rs
@@ -99,10 +99,10 @@ pub fn prove_set_membership_alt<R: RngCore + CryptoRng>(
 ) -> Result<Vec<G1>, R1CSError> {
     check_for_randomness_or_rng!(randomness, rng)?;
 
-    // Set all indices to 0 except the one where `value` is
-    let bit_map: Vec<u64> = set
-        .iter()
-        .map(|elem| if *elem == value { 1 } else { 0 })
+    // Set all indices to 0 except the one where `value` is first found
+    let position = set.iter().position(|elem| *elem == value);
+    let bit_map: Vec<u64> = (0..set.len())
+        .map(|i| if Some(i) == position { 1 } else { 0 })
         .collect();
 
     let mut comms = vec![];
-- 
2.43.0


From 85386c00a603434f5f73077e8813f6539a91ecbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:58 +0000
Subject: [PATCH 10/21] fix: bound check reports a value outside the bounds and
 inverted bounds as errors

The u64 differences underflowed: a panic in debug builds, a wrapped difference in release.
---
 src/r1cs/gadgets/bound_check.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/r1cs/gadgets/bound_check.rs b/src/r1cs/gadgets/bound_check.rs
index ed5d623..33f9490 100644
--- a/src/r1cs/gadgets/bound_check.rs
+++ b/src/r1cs/gadgets/bound_check.rs
@@ -22,6 +22,11 @@ pub fn bound_check_gadget<CS: ConstraintSystem>(
     // a = v - min
     // b = max - v
     // a + b = max - min
+    if min > max {
+        return Err(R1CSError::GadgetError {
+            description: format!("Lower bound {} is greater than upper bound {}", min, max),
+        });
+    }
 
     cs.constrain(v.variable - LinearCombination::from(FieldElement::from(min)) - a.variable);
 
@@ -49,6 +54,11 @@ pub fn prove_bounded_num<R: RngCore + CryptoRng>(
 ) -> Result<Vec<G1>, R1CSError> {
     check_for_randomness_or_rng!(randomness, rng)?;
 
+    if val < lower || val > upper {
+        return Err(R1CSError::GadgetError {
+            description: format!("{} is not in [{}, {}]", val, lower, upper),
+        });
+    }
     let a = val - lower;
     let b = upper - val;
 
-- 
2.43.0


From bc54058b3c188c4a01f01788ca2a041afad5aad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:53 +0000
Subject: [PATCH 11/21] fix: Merkle tree proof verification rejects proofs with
 a wrong number of nodes

---
 .../gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs   | 5 +++++
 .../gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs   | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs b/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
index 5d0c8cc..e18821c 100644
--- a/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
+++ b/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
@@ -178,6 +178,11 @@ impl<'a> VanillaSparseMerkleTree_4<'a> {
         proof: &[ProofNode_4_ary],
         root: Option<&FieldElement>,
     ) -> bool {
+        // A proof has exactly one node per level of the tree
+        if proof.len() != self.depth {
+            return false;
+        }
+
         let mut path = Self::leaf_index_to_path(&idx, self.depth);
         path.reverse();
         let mut cur_val = val.clone();
diff --git a/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs b/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
index 960c593..520d8d5 100644
--- a/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
+++ b/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
@@ -193,6 +193,11 @@ impl<'a> VanillaSparseMerkleTree_8<'a> {
         proof: &[ProofNode_8_ary],
         root: Option<&FieldElement>,
     ) -> bool {
+        // A proof has exactly one node per level of the tree
+        if proof.len() != self.depth {
+            return false;
+        }
+
         let mut path = Self::leaf_index_to_path(idx, self.depth);
         path.reverse();
         let mut cur_val = val.clone();
-- 
2.43.0


From 167e79084ae378058824be3c85db21895883c555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:53 +0000
Subject: [PATCH 12/21] fix: Merkle inclusion gadgets require exactly the proof
 nodes of the stated depth

---
 .../helper_constraints/sparse_merkle_tree_4_ary.rs   | 12 ++++++++++++
 .../helper_constraints/sparse_merkle_tree_8_ary.rs   | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs b/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
index e18821c..159953a 100644
--- a/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
+++ b/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
@@ -267,6 +267,18 @@ pub fn vanilla_merkle_merkle_tree_4_verif_gadget<CS: ConstraintSystem>(
     poseidon_params: &PoseidonParams,
     sbox_type: &SboxType,
 ) -> Result<(), R1CSError> {
+    // Each level of the tree needs 3 proof nodes, with fewer or more the proof would be for another depth
+    if proof_nodes.len() != depth * 3 {
+        return Err(R1CSError::GadgetError {
+            description: format!(
+                "Expected {} proof nodes for depth {} but found {}",
+                depth * 3,
+                depth,
+                proof_nodes.len()
+            ),
+        });
+    }
+
     let mut prev_hash = LinearCombination::from(leaf_val);
 
     let statics: Vec<LinearCombination> = statics.into_iter().map(|s| s.into()).collect();
diff --git a/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs b/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
index 520d8d5..410ebda 100644
--- a/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
+++ b/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
@@ -291,6 +291,18 @@ pub fn vanilla_merkle_merkle_tree_8_verif_gadget<CS: ConstraintSystem>(
     poseidon_params: &PoseidonParams,
     sbox_type: &SboxType,
 ) -> Result<(), R1CSError> {
+    // Each level of the tree needs 7 proof nodes, with fewer or more the proof would be for another depth
+    if proof_nodes.len() != depth * 7 {
+        return Err(R1CSError::GadgetError {
+            description: format!(
+                "Expected {} proof nodes for depth {} but found {}",
+                depth * 7,
+                depth,
+                proof_nodes.len()
+            ),
+        });
+    }
+
     let mut prev_hash = LinearCombination::from(leaf_val);
 
     // Initialize  constraint_leaf_index with -leaf_index.
-- 
2.43.0


From f3d35169d996eee514d546a941a9830166d3a84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:34 +0000
Subject: [PATCH 13/21] fix: bound check refuses bit sizes at which the sum of
 the distances wraps around the field

---
 src/r1cs/gadgets/bound_check.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/r1cs/gadgets/bound_check.rs b/src/r1cs/gadgets/bound_check.rs
index 33f9490..43ed5a3 100644
--- a/src/r1cs/gadgets/bound_check.rs
+++ b/src/r1cs/gadgets/bound_check.rs
@@ -3,6 +3,7 @@ use super::helper_constraints::positive_no::positive_no_gadget;
 use crate::errors::R1CSError;
 use crate::r1cs::linear_combination::AllocatedQuantity;
 use crate::r1cs::{ConstraintSystem, LinearCombination, Prover, R1CSProof, Variable, Verifier};
+use amcl_wrapper::constants::CurveOrder;
 use amcl_wrapper::field_elem::FieldElement;
 use amcl_wrapper::group_elem_g1::{G1Vector, G1};
 use merlin::Transcript;
@@ -27,6 +28,12 @@ pub fn bound_check_gadget<CS: ConstraintSystem>(
             description: format!("Lower bound {} is greater than upper bound {}", min, max),
         });
     }
+    // a + b has to be less than the curve order, otherwise any v would satisfy the constraints
+    if n >= CurveOrder.nbits() - 1 {
+        return Err(R1CSError::GadgetError {
+            description: format!("{} bits are too many for the curve order", n),
+        });
+    }
 
     cs.constrain(v.variable - LinearCombination::from(FieldElement::from(min)) - a.variable);
 
-- 
2.43.0


From 7ab1fd83d5fd634395e88bf3266423afa3db8d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:34 +0000
Subject: [PATCH 14/21] fix: Merkle inclusion gadgets refuse depths at which
 two paths share a leaf index

---
 .../helper_constraints/sparse_merkle_tree_4_ary.rs    | 11 +++++++++--
 .../helper_constraints/sparse_merkle_tree_8_ary.rs    |  9 ++++++++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs b/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
index 159953a..9a7147e 100644
--- a/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
+++ b/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
@@ -1,6 +1,6 @@
 use std::collections::HashMap;
 
-use amcl_wrapper::constants::MODBYTES;
+use amcl_wrapper::constants::{CurveOrder, MODBYTES};
 
 use crate::errors::R1CSError;
 use crate::r1cs::linear_combination::AllocatedQuantity;
@@ -10,7 +10,7 @@ use amcl_wrapper::field_elem::FieldElement;
 use super::poseidon::{
     PoseidonParams, Poseidon_hash_4, Poseidon_hash_4_constraints, SboxType, PADDING_CONST,
 };
-use super::{constrain_lc_with_scalar, get_byte_size};
+use super::{constrain_lc_with_scalar, get_bit_count, get_byte_size};
 use crate::r1cs::gadgets::helper_constraints::allocated_leaf_index_to_bytes;
 use crate::utils::hash_db::HashDb;
 
@@ -279,6 +279,13 @@ pub fn vanilla_merkle_merkle_tree_4_verif_gadget<CS: ConstraintSystem>(
         });
     }
 
+    // The leaf index has to be less than the curve order, otherwise 2 paths would have the same index
+    if get_bit_count(depth, 4) >= CurveOrder.nbits() {
+        return Err(R1CSError::GadgetError {
+            description: format!("Depth {} is too large for the curve order", depth),
+        });
+    }
+
     let mut prev_hash = LinearCombination::from(leaf_val);
 
     let statics: Vec<LinearCombination> = statics.into_iter().map(|s| s.into()).collect();
diff --git a/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs b/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
index 410ebda..d0344c2 100644
--- a/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
+++ b/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
@@ -1,6 +1,6 @@
 use std::collections::HashMap;
 
-use amcl_wrapper::constants::MODBYTES;
+use amcl_wrapper::constants::{CurveOrder, MODBYTES};
 
 use crate::errors::R1CSError;
 use crate::r1cs::linear_combination::AllocatedQuantity;
@@ -303,6 +303,13 @@ pub fn vanilla_merkle_merkle_tree_8_verif_gadget<CS: ConstraintSystem>(
         });
     }
 
+    // The leaf index has to be less than the curve order, otherwise 2 paths would have the same index
+    if get_bit_count(depth, 8) >= CurveOrder.nbits() {
+        return Err(R1CSError::GadgetError {
+            description: format!("Depth {} is too large for the curve order", depth),
+        });
+    }
+
     let mut prev_hash = LinearCombination::from(leaf_val);
 
     // Initialize  constraint_leaf_index with -leaf_index.
-- 
2.43.0


From b38b6540abbb1583da776cfce739889c9ec4778c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:05 +0000
Subject: [PATCH 15/21] fix: get_indices_to_modify returns no indices for empty
 data or a count of zero

---
 src/r1cs/gadgets/randomizer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/r1cs/gadgets/randomizer.rs b/src/r1cs/gadgets/randomizer.rs
index 05ab4bc..e5ad888 100644
--- a/src/r1cs/gadgets/randomizer.rs
+++ b/src/r1cs/gadgets/randomizer.rs
@@ -42,6 +42,10 @@ pub fn get_indices_to_modify(
     data_size: usize,
     count_modified: usize,
 ) -> HashSet<FieldElement> {
+    if data_size == 0 || count_modified == 0 {
+        // There is nothing to choose from or nothing to choose
+        return HashSet::<FieldElement>::new();
+    }
     let mut hasher = SHA3::new(SHAKE256);
     for b in nonce.to_bytes() {
         hasher.process(b);
-- 
2.43.0


From fcd26224f52910c961b2e1ab8f86fbdbdd741784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:18 +0000
Subject: [PATCH 16/21] fix: gadget verifiers return an error when given a
 wrong number of commitments

---
 src/errors.rs                                | 18 ++++++++++++++++++
 src/r1cs/gadgets/bound_check.rs              |  2 ++
 src/r1cs/gadgets/mimc.rs                     |  2 ++
 src/r1cs/gadgets/non_zero.rs                 |  2 ++
 src/r1cs/gadgets/poseidon_hash.rs            |  6 ++++++
 src/r1cs/gadgets/randomizer.rs               |  2 ++
 src/r1cs/gadgets/set_membership.rs           |  2 ++
 src/r1cs/gadgets/set_membership_alt.rs       |  2 ++
 src/r1cs/gadgets/set_non_membership.rs       |  2 ++
 src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs |  2 ++
 src/r1cs/gadgets/sparse_merkle_tree_8_ary.rs |  2 ++
 11 files changed, 42 insertions(+)

diff --git a/src/errors.rs b/src/errors.rs
index 3480211..a663a1b 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -53,3 +53,21 @@ macro_rules! check_for_input_and_randomness_length {
         }
     }};
 }
+
+/// Check that the verifier got as many commitments as the gadget uses
+#[macro_export]
+macro_rules! check_for_commitments_length {
+    ( $commitments:expr, $expected_length:expr ) => {{
+        if $commitments.len() != $expected_length {
+            Err(R1CSError::GadgetError {
+                description: format!(
+                    "Expected {} commitments but found {}",
+                    $expected_length,
+                    $commitments.len()
+                ),
+            })
+        } else {
+            Ok(())
+        }
+    }};
+}
diff --git a/src/r1cs/gadgets/bound_check.rs b/src/r1cs/gadgets/bound_check.rs
index 43ed5a3..97d5a52 100644
--- a/src/r1cs/gadgets/bound_check.rs
+++ b/src/r1cs/gadgets/bound_check.rs
@@ -115,6 +115,8 @@ pub fn verify_bounded_num(
     mut commitments: Vec<G1>,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, 3)?;
+
     let var_v = verifier.commit(commitments.remove(0));
     let quantity_v = AllocatedQuantity {
         variable: var_v,
diff --git a/src/r1cs/gadgets/mimc.rs b/src/r1cs/gadgets/mimc.rs
index bfe1a11..cd71b04 100644
--- a/src/r1cs/gadgets/mimc.rs
+++ b/src/r1cs/gadgets/mimc.rs
@@ -62,6 +62,8 @@ pub fn verify_mimc_preimage(
     mut commitments: Vec<G1>,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, 2)?;
+
     let var_l = verifier.commit(commitments.remove(0));
     let var_r = verifier.commit(commitments.remove(0));
 
diff --git a/src/r1cs/gadgets/non_zero.rs b/src/r1cs/gadgets/non_zero.rs
index b378ea4..5a185a7 100644
--- a/src/r1cs/gadgets/non_zero.rs
+++ b/src/r1cs/gadgets/non_zero.rs
@@ -45,6 +45,8 @@ pub fn verify_non_zero_val(
     mut commitments: Vec<G1>,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, 2)?;
+
     let var_val = verifier.commit(commitments.remove(0));
     let alloc_scal = AllocatedQuantity {
         variable: var_val,
diff --git a/src/r1cs/gadgets/poseidon_hash.rs b/src/r1cs/gadgets/poseidon_hash.rs
index 8ccfb1d..34ed6e9 100644
--- a/src/r1cs/gadgets/poseidon_hash.rs
+++ b/src/r1cs/gadgets/poseidon_hash.rs
@@ -126,6 +126,8 @@ pub fn verify_knowledge_of_preimage_of_Poseidon_2(
     h: &G1,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, 2)?;
+
     let lv = verifier.commit(commitments.remove(0));
     let rv = verifier.commit(commitments.remove(0));
 
@@ -270,6 +272,8 @@ pub fn verify_knowledge_of_preimage_of_Poseidon_4(
     h: &G1,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, 4)?;
+
     let mut allocs = vec![];
 
     for _ in 0..4 {
@@ -413,6 +417,8 @@ pub fn verify_knowledge_of_preimage_of_Poseidon_8(
     h: &G1,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, 8)?;
+
     let mut vars = vec![];
 
     for _ in 0..8 {
diff --git a/src/r1cs/gadgets/randomizer.rs b/src/r1cs/gadgets/randomizer.rs
index e5ad888..2278ebe 100644
--- a/src/r1cs/gadgets/randomizer.rs
+++ b/src/r1cs/gadgets/randomizer.rs
@@ -300,6 +300,8 @@ pub fn verify_proof_for_randomizer(
     G: &G1Vector,
     H: &G1Vector,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, 1 + modified_indices.len() * (1 + 3 * tree_depth))?;
+
     let mut verifier_transcript = Transcript::new(transcript_label);
     let mut verifier = Verifier::new(&mut verifier_transcript);
 
diff --git a/src/r1cs/gadgets/set_membership.rs b/src/r1cs/gadgets/set_membership.rs
index 8417be2..77fe93c 100644
--- a/src/r1cs/gadgets/set_membership.rs
+++ b/src/r1cs/gadgets/set_membership.rs
@@ -83,6 +83,8 @@ pub fn verify_set_membership(
     mut commitments: Vec<G1>,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, set.len() + 1)?;
+
     let set_length = set.len();
 
     let mut diff_vars: Vec<AllocatedQuantity> = vec![];
diff --git a/src/r1cs/gadgets/set_membership_alt.rs b/src/r1cs/gadgets/set_membership_alt.rs
index 0844405..6ff1321 100644
--- a/src/r1cs/gadgets/set_membership_alt.rs
+++ b/src/r1cs/gadgets/set_membership_alt.rs
@@ -145,6 +145,8 @@ pub fn verify_set_membership_alt(
     mut commitments: Vec<G1>,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, set.len() + 1)?;
+
     let set_length = set.len();
 
     let mut bit_vars = vec![];
diff --git a/src/r1cs/gadgets/set_non_membership.rs b/src/r1cs/gadgets/set_non_membership.rs
index 6750af0..5a36269 100644
--- a/src/r1cs/gadgets/set_non_membership.rs
+++ b/src/r1cs/gadgets/set_non_membership.rs
@@ -91,6 +91,8 @@ pub fn verify_set_non_membership(
     mut commitments: Vec<G1>,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, 2 * set.len() + 1)?;
+
     let set_length = set.len();
 
     let mut diff_vars: Vec<AllocatedQuantity> = vec![];
diff --git a/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs b/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
index 988c2c1..f44fb5c 100644
--- a/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
+++ b/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
@@ -97,6 +97,8 @@ pub fn verify_leaf_inclusion_4_ary_merkle_tree(
     h: &G1,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, 2 + tree_depth * 3)?;
+
     let var_leaf = verifier.commit(commitments.remove(0));
 
     let var_leaf_idx = verifier.commit(commitments.remove(0));
diff --git a/src/r1cs/gadgets/sparse_merkle_tree_8_ary.rs b/src/r1cs/gadgets/sparse_merkle_tree_8_ary.rs
index 212b7ff..107d3da 100644
--- a/src/r1cs/gadgets/sparse_merkle_tree_8_ary.rs
+++ b/src/r1cs/gadgets/sparse_merkle_tree_8_ary.rs
@@ -96,6 +96,8 @@ pub fn verify_leaf_inclusion_8_ary_merkle_tree(
     h: &G1,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, 2 + tree_depth * 7)?;
+
     let var_leaf = verifier.commit(commitments.remove(0));
 
     let var_leaf_idx = verifier.commit(commitments.remove(0));
-- 
2.43.0


From bc8fc04974e016958c2d22963ed1e49af8363b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:46 +0000
Subject: [PATCH 17/21] fix: gadget provers return the error of a failed proof
 generation instead of panicking

---
 src/r1cs/gadgets/hamming_distance.rs         | 2 +-
 src/r1cs/gadgets/randomizer.rs               | 2 +-
 src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/r1cs/gadgets/hamming_distance.rs b/src/r1cs/gadgets/hamming_distance.rs
index 7febb26..ce03ec1 100644
--- a/src/r1cs/gadgets/hamming_distance.rs
+++ b/src/r1cs/gadgets/hamming_distance.rs
@@ -121,7 +121,7 @@ pub fn gen_proof_for_hamming_distance(
         &prover.num_multipliers(),
         &prover.num_constraints()
     );
-    let proof = prover.prove(G, H).unwrap();
+    let proof = prover.prove(G, H)?;
     println!("Proving time is {:?}", start.elapsed());
     Ok((proof, comms))
 }
diff --git a/src/r1cs/gadgets/randomizer.rs b/src/r1cs/gadgets/randomizer.rs
index 2278ebe..a93ea38 100644
--- a/src/r1cs/gadgets/randomizer.rs
+++ b/src/r1cs/gadgets/randomizer.rs
@@ -277,7 +277,7 @@ pub fn gen_proof_for_randomizer(
         + hash_params.full_rounds_end;
     println!("For 4-ary tree of height {} (has 2^{} leaves) and Poseidon rounds {}, no of multipliers is {} and constraints is {}", tree_depth, tree_depth*2, total_rounds, &prover.num_multipliers(), &prover.num_constraints());
 
-    let proof = prover.prove(G, H).unwrap();
+    let proof = prover.prove(G, H)?;
     let end = start.elapsed();
 
     println!("Proving time is {:?}", end);
diff --git a/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs b/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
index f44fb5c..a5ad1e8 100644
--- a/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
+++ b/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
@@ -170,7 +170,7 @@ pub fn gen_proof_of_leaf_inclusion_4_ary_merkle_tree<R: RngCore + CryptoRng>(
         + hash_params.full_rounds_end;
     println!("For 4-ary tree of height {} (has 2^{} leaves) and Poseidon rounds {}, no of multipliers is {} and constraints is {}", tree_depth, tree_depth*2, total_rounds, &prover.num_multipliers(), &prover.num_constraints());
 
-    let proof = prover.prove(G, H).unwrap();
+    let proof = prover.prove(G, H)?;
     let end = start.elapsed();
 
     println!("Proving time is {:?}", end);
-- 
2.43.0


From 3e6f7fd032b46ce74ef81d73af012f24353246cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:19 +0000
Subject: [PATCH 18/21] fix: MiMC gadget returns an error when there are fewer
 constants than rounds

---
 src/r1cs/gadgets/helper_constraints/mimc.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/r1cs/gadgets/helper_constraints/mimc.rs b/src/r1cs/gadgets/helper_constraints/mimc.rs
index f0e8f88..3f0db0f 100644
--- a/src/r1cs/gadgets/helper_constraints/mimc.rs
+++ b/src/r1cs/gadgets/helper_constraints/mimc.rs
@@ -54,6 +54,16 @@ pub fn enforce_mimc_2_inputs<CS: ConstraintSystem>(
     mimc_rounds: usize,
     mimc_constants: &[FieldElement],
 ) -> Result<LinearCombination, R1CSError> {
+    if mimc_constants.len() < mimc_rounds {
+        return Err(R1CSError::GadgetError {
+            description: format!(
+                "{} rounds need as many constants but found {}",
+                mimc_rounds,
+                mimc_constants.len()
+            ),
+        });
+    }
+
     let mut left_v = left;
     let mut right_v = right;
 
-- 
2.43.0


From 1a15b046493ebfa4ee0d41616c15a9b2f7505544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:16 +0000
Subject: [PATCH 19/21] fix: randomizer returns errors, not panics, on
 inconsistent arguments and missing nodes

---
 src/r1cs/gadgets/randomizer.rs | 37 ++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/r1cs/gadgets/randomizer.rs b/src/r1cs/gadgets/randomizer.rs
index a93ea38..077d56e 100644
--- a/src/r1cs/gadgets/randomizer.rs
+++ b/src/r1cs/gadgets/randomizer.rs
@@ -101,8 +101,23 @@ pub fn randomizer_gadget<CS: ConstraintSystem>(
     poseidon_params: &PoseidonParams,
     sbox_type: &SboxType,
 ) -> Result<(), R1CSError> {
-    assert_eq!(new_tree.depth, depth);
-    assert_eq!(indices.len(), orig_vals.len());
+    if new_tree.depth != depth {
+        return Err(R1CSError::GadgetError {
+            description: format!("New tree has depth {}, expected {}", new_tree.depth, depth),
+        });
+    }
+    if orig_vals.len() != indices.len()
+        || orig_vals_proofs.len() != indices.len()
+        || orig_vals_proofs.iter().any(|p| p.len() != depth * 3)
+    {
+        return Err(R1CSError::GadgetError {
+            description: format!(
+                "Each of the {} indices needs an original value and {} proof nodes",
+                indices.len(),
+                depth * 3
+            ),
+        });
+    }
 
     let statics: Vec<LinearCombination> = statics.into_iter().map(|s| s.into()).collect();
 
@@ -144,7 +159,7 @@ pub fn randomizer_gadget<CS: ConstraintSystem>(
         let mut cur_prefix: Vec<u8> = vec![];
 
         for pos in path_for_get.iter() {
-            let children = new_db.get(&cur_node.to_bytes()).unwrap().to_vec();
+            let children = new_db.get(&cur_node.to_bytes())?.to_vec();
             cur_node = children[*pos as usize].clone();
             for (k, c) in children.iter().enumerate() {
                 let mut key = cur_prefix.clone();
@@ -220,6 +235,16 @@ pub fn gen_proof_for_randomizer(
 ) -> Result<(R1CSProof, Vec<G1>), R1CSError> {
     let orig_root = &orig_tree.root;
 
+    if orig_vals.len() != modified_indices.len() {
+        return Err(R1CSError::GadgetError {
+            description: format!(
+                "{} original values for {} modified indices",
+                orig_vals.len(),
+                modified_indices.len()
+            ),
+        });
+    }
+
     let mut prover_transcript = Transcript::new(transcript_label);
     let mut prover = Prover::new(&g, &h, &mut prover_transcript);
 
@@ -236,7 +261,11 @@ pub fn gen_proof_for_randomizer(
         let mut merkle_proof_vec = Vec::<ProofNode_4_ary>::new();
         let mut merkle_proof = Some(merkle_proof_vec);
         let _v = orig_tree.get(&modified_indices[i], &mut merkle_proof, orig_db)?;
-        assert_eq!(_v, orig_vals[i]);
+        if _v != orig_vals[i] {
+            return Err(R1CSError::GadgetError {
+                description: String::from("Original value is not in the original tree"),
+            });
+        }
         let (com_orig_val, var_orig_val) = prover.commit(_v, FieldElement::random());
         comms.push(com_orig_val);
         orig_val_vars.push(var_orig_val);
-- 
2.43.0


From 6939867aeb3383431b9b609690120e227c3456e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:46 +0000
Subject: [PATCH 20/21] fix: bound check and set_membership_alt convert u64
 numbers to field elements exactly

---
 src/r1cs/gadgets/bound_check.rs        | 19 ++++++++++---------
 src/r1cs/gadgets/set_membership_alt.rs |  7 ++++---
 src/utils/mod.rs                       |  7 +++++++
 3 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/r1cs/gadgets/bound_check.rs b/src/r1cs/gadgets/bound_check.rs
index 97d5a52..2644598 100644
--- a/src/r1cs/gadgets/bound_check.rs
+++ b/src/r1cs/gadgets/bound_check.rs
@@ -3,6 +3,7 @@ use super::helper_constraints::positive_no::positive_no_gadget;
 use crate::errors::R1CSError;
 use crate::r1cs::linear_combination::AllocatedQuantity;
 use crate::r1cs::{ConstraintSystem, LinearCombination, Prover, R1CSProof, Variable, Verifier};
+use crate::utils::field_elem_from_u64;
 use amcl_wrapper::constants::CurveOrder;
 use amcl_wrapper::field_elem::FieldElement;
 use amcl_wrapper::group_elem_g1::{G1Vector, G1};
@@ -35,12 +36,12 @@ pub fn bound_check_gadget<CS: ConstraintSystem>(
         });
     }
 
-    cs.constrain(v.variable - LinearCombination::from(FieldElement::from(min)) - a.variable);
+    cs.constrain(v.variable - LinearCombination::from(field_elem_from_u64(min)) - a.variable);
 
-    cs.constrain(LinearCombination::from(FieldElement::from(max)) - v.variable - b.variable);
+    cs.constrain(LinearCombination::from(field_elem_from_u64(max)) - v.variable - b.variable);
 
     // Constrain a + b to be same as max - min.
-    constrain_lc_with_scalar::<CS>(cs, a.variable + b.variable, &FieldElement::from(max - min));
+    constrain_lc_with_scalar::<CS>(cs, a.variable + b.variable, &field_elem_from_u64(max - min));
 
     // Constrain a in [0, 2^n)
     positive_no_gadget(cs, a, n)?;
@@ -72,26 +73,26 @@ pub fn prove_bounded_num<R: RngCore + CryptoRng>(
     let mut comms = vec![];
 
     let (com_v, var_v) = prover.commit(
-        val.into(),
+        field_elem_from_u64(val),
         randomness.unwrap_or_else(|| FieldElement::random_using_rng(rng.unwrap())),
     );
     let quantity_v = AllocatedQuantity {
         variable: var_v,
-        assignment: Some(val.into()),
+        assignment: Some(field_elem_from_u64(val)),
     };
     comms.push(com_v);
 
-    let (com_a, var_a) = prover.commit(a.into(), FieldElement::random());
+    let (com_a, var_a) = prover.commit(field_elem_from_u64(a), FieldElement::random());
     let quantity_a = AllocatedQuantity {
         variable: var_a,
-        assignment: Some(a.into()),
+        assignment: Some(field_elem_from_u64(a)),
     };
     comms.push(com_a);
 
-    let (com_b, var_b) = prover.commit(b.into(), FieldElement::random());
+    let (com_b, var_b) = prover.commit(field_elem_from_u64(b), FieldElement::random());
     let quantity_b = AllocatedQuantity {
         variable: var_b,
-        assignment: Some(b.into()),
+        assignment: Some(field_elem_from_u64(b)),
     };
     comms.push(com_b);
 
diff --git a/src/r1cs/gadgets/set_membership_alt.rs b/src/r1cs/gadgets/set_membership_alt.rs
index 6ff1321..7e3bf41 100644
--- a/src/r1cs/gadgets/set_membership_alt.rs
+++ b/src/r1cs/gadgets/set_membership_alt.rs
@@ -4,6 +4,7 @@ use super::helper_constraints::vector_sum::vector_sum_constraints;
 use crate::errors::R1CSError;
 use crate::r1cs::linear_combination::AllocatedQuantity;
 use crate::r1cs::{ConstraintSystem, LinearCombination, Prover, R1CSProof, Variable, Verifier};
+use crate::utils::field_elem_from_u64;
 use amcl_wrapper::field_elem::FieldElement;
 use amcl_wrapper::group_elem_g1::{G1Vector, G1};
 use merlin::Transcript;
@@ -67,11 +68,11 @@ pub fn vector_product_gadget<CS: ConstraintSystem>(
             vector[i]
                 .assignment
                 .as_ref()
-                .map(|bit| (bit.clone(), items[i].into())),
+                .map(|bit| (bit.clone(), field_elem_from_u64(items[i]))),
         )?;
         // bit_var is the committed bit
         cs.constrain(bit_var - vector[i].variable);
-        constrain_lc_with_scalar::<CS>(cs, item_var.into(), &items[i].into());
+        constrain_lc_with_scalar::<CS>(cs, item_var.into(), &field_elem_from_u64(items[i]));
 
         let (_, _, o2) = cs.multiply(bit_var.into(), value.variable.into());
 
@@ -125,7 +126,7 @@ pub fn prove_set_membership_alt<R: RngCore + CryptoRng>(
     // The bit vector sum should be 1
     vector_sum_constraints(prover, bit_vars, 1)?;
 
-    let _value = FieldElement::from(value);
+    let _value = field_elem_from_u64(value);
     let (com_value, var_value) = prover.commit(
         _value.clone(),
         randomness.unwrap_or_else(|| FieldElement::random_using_rng(rng.unwrap())),
diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 940242b..f412f73 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -37,6 +37,13 @@ pub fn is_on_curve(p: &G1) -> bool {
     }
 }
 
+/// `FieldElement::from` a `u64` puts all of the bits in one limb as a signed number, which is not
+/// normalized for numbers of more than 58 bits and negative for those of 64 bits.
+pub fn field_elem_from_u64(x: u64) -> FieldElement {
+    FieldElement::from(x >> 32) * FieldElement::from(1u64 << 32)
+        + FieldElement::from(x & 0xffff_ffff)
+}
+
 pub fn gen_challenges(input: &[&G1], state: &mut Vec<u8>, n: usize) -> Vec<FieldElement> {
     let mut r = Vec::<FieldElement>::with_capacity(n);
     for i in 0..input.len() {
-- 
2.43.0


From da47814262496dfac31db484655f99fcc6a1befe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:39 +0000
Subject: [PATCH 21/21] fix: vector_sum_constraints converts the u64 sum to a
 field element exactly

---
 src/r1cs/gadgets/helper_constraints/vector_sum.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/r1cs/gadgets/helper_constraints/vector_sum.rs b/src/r1cs/gadgets/helper_constraints/vector_sum.rs
index 3fb08d8..081c2ae 100644
--- a/src/r1cs/gadgets/helper_constraints/vector_sum.rs
+++ b/src/r1cs/gadgets/helper_constraints/vector_sum.rs
@@ -1,5 +1,6 @@
 use crate::errors::R1CSError;
 use crate::r1cs::{ConstraintSystem, Variable};
+use crate::utils::field_elem_from_u64;
 use amcl_wrapper::field_elem::FieldElement;
 
 // Ensure sum of items of `vector` is `sum`
@@ -8,7 +9,7 @@ pub fn vector_sum_constraints<CS: ConstraintSystem>(
     vector: Vec<Variable>,
     sum: u64,
 ) -> Result<(), R1CSError> {
-    let mut constraints = vec![(Variable::One(), FieldElement::from(sum).negation())];
+    let mut constraints = vec![(Variable::One(), field_elem_from_u64(sum).negation())];
     for i in vector {
         constraints.push((i, FieldElement::one()));
     }
-- 
2.43.0

