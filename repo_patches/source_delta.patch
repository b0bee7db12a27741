From ae0f65bf88ce0fa1381003340c729d6e31b06b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:19:51 +0000
Subject: [PATCH 01/40] fix: reject values above the target width in
 field_switching

Only the bytes that both fields have were compared. A value of a wider
field whose low bytes happened to survive the reduction was switched to a
different value without an error.
---
 utilities/src/conversion.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utilities/src/conversion.rs b/utilities/src/conversion.rs
index 84fa176..5468459 100644
--- a/utilities/src/conversion.rs
+++ b/utilities/src/conversion.rs
@@ -78,6 +78,8 @@ where
     let bytes_rec = t.into_bigint().to_bytes_le();
     let length = min(bytes.len(), bytes_rec.len());
     assert_eq!(bytes_rec[0..length], bytes[0..length],);
+    // the bytes which only one of the two fields has must not carry any value
+    assert!(bytes[length..].iter().all(|b| *b == 0));
     t
 }
 
-- 
2.43.0


From 9cddd138b401ce9cd97b808d12b66f79ac52fcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:19:51 +0000
Subject: [PATCH 02/40] fix: decode bytes from fields that do not fill their
 top limb

bytes_from_field_elements assumed that an element's integer form is exactly
one byte longer than its payload. It panicked on every input for fields
such as 2^130 - 5, whose integer form has several spare bytes.
---
 utilities/src/conversion.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/utilities/src/conversion.rs b/utilities/src/conversion.rs
index 5468459..e0caa0e 100644
--- a/utilities/src/conversion.rs
+++ b/utilities/src/conversion.rs
@@ -226,23 +226,13 @@ where
 
     // for each base prime field element:
     // - convert to bytes
-    // - drop the trailing byte
+    // - drop the trailing bytes that do not encode any input
     // - append bytes to result
     let mut result = Vec::with_capacity(result_capacity);
     for elem in elems {
         for primefield_elem in elem.to_base_prime_field_elements() {
             let primefield_bytes = primefield_elem.into_bigint().to_bytes_le();
-            let (_, primefield_bytes) = primefield_bytes
-                .split_last() // ignore the final byte of primefield_elem
-                .expect("prime field elem bytes should be non-empty");
-            assert_eq!(
-                primefield_bytes.len(),
-                primefield_bytes_len,
-                "invalid prime field elem bytes len, expect {}, found {}",
-                primefield_bytes_len,
-                primefield_bytes.len()
-            );
-            result.extend_from_slice(primefield_bytes);
+            result.extend_from_slice(&primefield_bytes[..primefield_bytes_len]);
         }
     }
 
-- 
2.43.0


From 1207db02c8c922ef4e1e34a7a814d6051ee80ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:11 +0000
Subject: [PATCH 03/40] fix: pad an empty input of the fixed-length Poseidon2
 hash

The hash documents that shorter inputs are padded with zeros to the fixed
size. An empty input was left empty, because zero is already a multiple of
the size.
---
 poseidon2/src/crhf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/poseidon2/src/crhf.rs b/poseidon2/src/crhf.rs
index fead56d..d659207 100644
--- a/poseidon2/src/crhf.rs
+++ b/poseidon2/src/crhf.rs
@@ -44,7 +44,7 @@ where
         }
 
         let mut padded = Vec::from(input);
-        zero_padding(&mut padded, IN);
+        padded.resize(IN, F::zero());
 
         let mut sponge = DuplexSponge::<S>::default();
         sponge.absorb_unchecked(&padded);
-- 
2.43.0


From 866f4fddba9b82735932905785bb1aacf97082ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:00 +0000
Subject: [PATCH 04/40] fix: give the Keccak256 Merkle tree its hash and node
 types in the right order

---
 merkle_tree/src/prelude.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/merkle_tree/src/prelude.rs b/merkle_tree/src/prelude.rs
index bed1c36..5527a71 100644
--- a/merkle_tree/src/prelude.rs
+++ b/merkle_tree/src/prelude.rs
@@ -197,7 +197,7 @@ pub type SHA3MerkleTree<E> = MerkleTree<E, Sha3Digest, u64, 3, Sha3Node>;
 pub type LightWeightSHA3MerkleTree<E> = LightWeightMerkleTree<E, Sha3Digest, u64, 3, Sha3Node>;
 
 /// Merkle tree using keccak256 hash
-pub type Keccak256MerkleTree<E> = MerkleTree<E, Keccak256Node, u64, 3, Keccak256Digest>;
+pub type Keccak256MerkleTree<E> = MerkleTree<E, Keccak256Digest, u64, 3, Keccak256Node>;
 /// Light weight merkle tree using Keccak256 hash
 pub type LightWeightKeccak256MerkleTree<E> =
     LightWeightMerkleTree<E, Keccak256Digest, u64, 3, Keccak256Node>;
-- 
2.43.0


From 12675421d656c544926f1a0fea792157ade2efc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:48 +0000
Subject: [PATCH 05/40] fix: return a full-height absence proof when forgetting
 an absent leaf

---
 merkle_tree/src/internal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/merkle_tree/src/internal.rs b/merkle_tree/src/internal.rs
index 8a1a0b5..4faa3f0 100644
--- a/merkle_tree/src/internal.rs
+++ b/merkle_tree/src/internal.rs
@@ -460,7 +460,7 @@ where
         match self {
             MerkleNode::Empty => (
                 Arc::new(self.clone()),
-                LookupResult::NotFound(MerkleTreeProof(vec![])),
+                LookupResult::NotFound(MerkleTreeProof(vec![vec![]; height])),
             ),
             MerkleNode::Branch { value, children } => {
                 let mut children = children.clone();
-- 
2.43.0


From 00c85a1c8738dad50ef360de7057311e6a07432f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:48 +0000
Subject: [PATCH 06/40] fix: refuse to remember an absence proof of the wrong
 height

---
 merkle_tree/src/universal_merkle_tree.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/merkle_tree/src/universal_merkle_tree.rs b/merkle_tree/src/universal_merkle_tree.rs
index 68d5806..3cde797 100644
--- a/merkle_tree/src/universal_merkle_tree.rs
+++ b/merkle_tree/src/universal_merkle_tree.rs
@@ -169,7 +169,9 @@ where
     ) -> Result<(), MerkleTreeError> {
         let pos = pos.borrow();
         let proof = proof.borrow();
-        if Self::non_membership_verify(&self.commitment(), pos, proof)?.is_err() {
+        if proof.height() != self.height
+            || Self::non_membership_verify(&self.commitment(), pos, proof)?.is_err()
+        {
             Err(MerkleTreeError::InconsistentStructureError(
                 "Wrong proof".to_string(),
             ))
-- 
2.43.0


From 46173d02d9e5ebe4303b4ed44e8e042646e9199e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:48 +0000
Subject: [PATCH 07/40] fix: remember an empty subtree from its absence proof

---
 merkle_tree/src/internal.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/merkle_tree/src/internal.rs b/merkle_tree/src/internal.rs
index 4faa3f0..ec682a9 100644
--- a/merkle_tree/src/internal.rs
+++ b/merkle_tree/src/internal.rs
@@ -585,6 +585,9 @@ where
                 } else {
                     MerkleNode::Empty
                 }
+            } else if proof[height - 1].is_empty() {
+                // The proof shows that the whole subtree is empty
+                MerkleNode::Empty
             } else {
                 let branch = traversal_path[height - 1];
                 let mut values = proof[height - 1].clone();
-- 
2.43.0


From 0455e317685005f21889057caa32cdf206e0dbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:48 +0000
Subject: [PATCH 08/40] fix: keep empty siblings empty when remembering a leaf

---
 merkle_tree/src/internal.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/merkle_tree/src/internal.rs b/merkle_tree/src/internal.rs
index ec682a9..ae9c97a 100644
--- a/merkle_tree/src/internal.rs
+++ b/merkle_tree/src/internal.rs
@@ -594,7 +594,13 @@ where
                 values.insert(branch, *value);
                 let mut children = values
                     .iter()
-                    .map(|&value| Arc::new(MerkleNode::ForgottenSubtree { value }))
+                    .map(|&value| {
+                        Arc::new(if value == T::default() {
+                            MerkleNode::Empty
+                        } else {
+                            MerkleNode::ForgottenSubtree { value }
+                        })
+                    })
                     .collect::<Vec<_>>();
                 children[branch] = children[branch].remember_internal::<H, ARITY>(
                     height - 1,
-- 
2.43.0


From 228452d2610debf347b662cf39fdca0e9dd98b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:48 +0000
Subject: [PATCH 09/40] fix: bind the indices of a Merkle range proof to its
 shape

---
 merkle_tree/src/internal.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/merkle_tree/src/internal.rs b/merkle_tree/src/internal.rs
index ae9c97a..cc8d3a7 100644
--- a/merkle_tree/src/internal.rs
+++ b/merkle_tree/src/internal.rs
@@ -216,6 +216,25 @@ where
             "Indices and elements must have the same length".to_string(),
         ));
     }
+    if proof.lbound.len() != proof.rbound.len() {
+        return Err(MerkleTreeError::InconsistentStructureError(
+            "Malformed proof".to_string(),
+        ));
+    }
+    // The indices must be the ones that the shape of the proof stands for
+    for (i, index) in indices.iter().enumerate() {
+        let mut offset = i;
+        let path = index.borrow().to_traversal_path(proof.lbound.len());
+        for (l, branch) in proof.lbound.iter().zip(path) {
+            offset += l.len();
+            if offset % ARITY != branch {
+                return Err(MerkleTreeError::InconsistentStructureError(
+                    "Malformed proof".to_string(),
+                ));
+            }
+            offset /= ARITY;
+        }
+    }
     let mut values = indices
         .iter()
         .zip(elements.iter())
-- 
2.43.0


From ae20ab23936e6e8df360d5e6356d0a6211c94a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:48 +0000
Subject: [PATCH 10/40] fix: pad the digest inputs of the interval Merkle tree

---
 merkle_tree/src/examples.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/merkle_tree/src/examples.rs b/merkle_tree/src/examples.rs
index f4acd2c..e6ad82f 100644
--- a/merkle_tree/src/examples.rs
+++ b/merkle_tree/src/examples.rs
@@ -10,7 +10,7 @@
 use super::{append_only::MerkleTree, prelude::RescueHash, DigestAlgorithm};
 use crate::errors::MerkleTreeError;
 use ark_ff::Field;
-use ark_std::{format, vec};
+use ark_std::vec;
 use jf_rescue::{crhf::RescueCRHF, RescueParameter};
 
 /// Element type for interval merkle tree
@@ -22,14 +22,12 @@ impl<F: RescueParameter> DigestAlgorithm<Interval<F>, u64, F> for RescueHash<F>
     fn digest(data: &[F]) -> Result<F, MerkleTreeError> {
         let mut input = vec![F::zero()];
         input.extend(data.iter());
-        Ok(RescueCRHF::<F>::sponge_no_padding(&input, 1)
-            .map_err(|err| MerkleTreeError::DigestError(format!("{}", err)))?[0])
+        Ok(RescueCRHF::<F>::sponge_with_zero_padding(&input, 1)[0])
     }
 
     fn digest_leaf(pos: &u64, elem: &Interval<F>) -> Result<F, MerkleTreeError> {
         let data = [F::one(), F::from(*pos), elem.0, elem.1];
-        Ok(RescueCRHF::<F>::sponge_no_padding(&data, 1)
-            .map_err(|err| MerkleTreeError::DigestError(format!("{}", err)))?[0])
+        Ok(RescueCRHF::<F>::sponge_with_zero_padding(&data, 1)[0])
     }
 }
 
-- 
2.43.0


From 196274f99f33b2ac85dd3256d9d6a2d623bc752a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:01:27 +0000
Subject: [PATCH 11/40] fix: refuse to publish a variable that does not exist

Setting an out-of-range variable public recorded a public input gate before
failing, which left the circuit without a valid public input list.
---
 relation/src/constraint_system.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/relation/src/constraint_system.rs b/relation/src/constraint_system.rs
index e9aa8a4..4e37095 100644
--- a/relation/src/constraint_system.rs
+++ b/relation/src/constraint_system.rs
@@ -671,6 +671,7 @@ impl<F: FftField> Circuit<F> for PlonkCircuit<F> {
 
     fn set_variable_public(&mut self, var: Variable) -> Result<(), CircuitError> {
         self.check_finalize_flag(false)?;
+        self.check_var_bound(var)?;
         self.pub_input_gate_ids.push(self.num_gates());
 
         // Create an io gate that forces `witness[var] = public_input`.
-- 
2.43.0


From e10d846b0bbb879ed803b205297f82156d06cf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:01:27 +0000
Subject: [PATCH 12/40] fix: answer range queries as wide as the field

Asking whether a variable fits in as many bits as the field has failed with an
error, and panicked for longer bit lengths. Every element is in such a range.
---
 relation/src/gadgets/range.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/relation/src/gadgets/range.rs b/relation/src/gadgets/range.rs
index e3d0fc9..57cd680 100644
--- a/relation/src/gadgets/range.rs
+++ b/relation/src/gadgets/range.rs
@@ -27,6 +27,11 @@ impl<F: PrimeField> PlonkCircuit<F> {
     /// range [0, 2^`bit_len`). Return error if the variable is invalid.
     /// TODO: optimize the gate for UltraPlonk.
     pub fn is_in_range(&mut self, a: Variable, bit_len: usize) -> Result<BoolVar, CircuitError> {
+        self.check_var_bound(a)?;
+        if bit_len >= F::MODULUS_BIT_SIZE as usize {
+            // every field element is in the range
+            return Ok(self.true_var());
+        }
         let a_bit_le: Vec<BoolVar> = self.unpack(a, F::MODULUS_BIT_SIZE as usize)?;
         let a_bit_le: Vec<Variable> = a_bit_le.into_iter().map(|b| b.into()).collect();
         // a is in range if and only if the bits in `a_bit_le[bit_len..]` are all
-- 
2.43.0


From e31306ed8517aed9781bbcd617ba9f7ce854edb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:01:27 +0000
Subject: [PATCH 13/40] fix: rule out non-canonical bits in unpackings wider
 than the field

Bits of a variable were compared with the modulus only when their number was
exactly the bit size of the field. With more bits the bits of value + modulus
satisfied the circuit too.
---
 relation/src/gadgets/range.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/relation/src/gadgets/range.rs b/relation/src/gadgets/range.rs
index 57cd680..6165674 100644
--- a/relation/src/gadgets/range.rs
+++ b/relation/src/gadgets/range.rs
@@ -129,11 +129,11 @@ impl<F: PrimeField> PlonkCircuit<F> {
             })
             .collect::<Result<Vec<_>, CircuitError>>()?;
 
-        // edge case: when decomposing a field to exactly MODULUS_BIT_SIZE,
+        // edge case: when decomposing a field to MODULUS_BIT_SIZE or more bits,
         // and when MODULUS < 2^MODULUS_BIT_SIZE (e.g. p=17, log2(p) = 5), then we need
         // to rule out non-canonical representation of field elements (e.g.
         // avoid bit-wise 18 to represent 1 mod 17) by making sure its always < MODULUS
-        if bit_len == F::MODULUS_BIT_SIZE as usize {
+        if bit_len >= F::MODULUS_BIT_SIZE as usize {
             self.binary_decomposition_gate_with_canonical_check(a_bits_le.clone(), a)?;
         } else {
             self.binary_decomposition_gate(a_bits_le.clone(), a)?;
-- 
2.43.0


From f7a3579960635e6ccf1e62dce33b1734fb9534e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:01:28 +0000
Subject: [PATCH 14/40] fix: return an error when the truncated value exceeds
 the original

The integer subtraction underflowed and panicked.
---
 relation/src/gadgets/arithmetic.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/relation/src/gadgets/arithmetic.rs b/relation/src/gadgets/arithmetic.rs
index 8ce3c99..c9085d9 100644
--- a/relation/src/gadgets/arithmetic.rs
+++ b/relation/src/gadgets/arithmetic.rs
@@ -435,6 +435,11 @@ impl<F: PrimeField> PlonkCircuit<F> {
         let b1_uint = &b_uint % &two_to_bit_length_lookup_component_uint;
         let b2_uint = &b_uint / &two_to_bit_length_lookup_component_uint;
 
+        if b_uint > a_uint {
+            return Err(CircuitError::ParameterError(
+                "Truncation error: b is greater than a".to_string(),
+            ));
+        }
         let z_uint = (&a_uint - &b_uint) / &modulus_uint;
         let z1_uint = &z_uint % &two_to_delta_length_lookup_component_uint;
         let z2_uint = &z_uint / &two_to_delta_length_lookup_component_uint;
-- 
2.43.0


From a3352a3e365d96d93706e84b94ba5303b3e1e2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:01:28 +0000
Subject: [PATCH 15/40] fix: constrain the absent parts of a truncation to zero

When the truncated length, or the length that is cut off, is a multiple of the
range table size (or shorter than it), one of the two summands has no bits. Its
variable was left unconstrained, so any value passed as the truncation.
---
 relation/src/gadgets/arithmetic.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/relation/src/gadgets/arithmetic.rs b/relation/src/gadgets/arithmetic.rs
index c9085d9..3db4490 100644
--- a/relation/src/gadgets/arithmetic.rs
+++ b/relation/src/gadgets/arithmetic.rs
@@ -477,6 +477,8 @@ impl<F: PrimeField> PlonkCircuit<F> {
         // so we don't need to add a selection gate here
         if bit_length_lookup_component != 0 {
             self.range_gate_with_lookup(b1_var, bit_length_lookup_component)?;
+        } else {
+            self.enforce_constant(b1_var, F::zero())?;
         }
 
         // (7) b2 < 2^bit_length_non_lookup_range
@@ -484,6 +486,8 @@ impl<F: PrimeField> PlonkCircuit<F> {
         // so we don't need to add a selection gate here
         if bit_length_non_lookup_range != 0 {
             self.enforce_in_range(b2_var, bit_length_non_lookup_range)?;
+        } else {
+            self.enforce_constant(b2_var, F::zero())?;
         }
 
         // (8) z1 < 2^delta_length_lookup_component
@@ -491,6 +495,8 @@ impl<F: PrimeField> PlonkCircuit<F> {
         // so we don't need to add a selection gate here
         if delta_length_lookup_component != 0 {
             self.range_gate_with_lookup(z1_var, delta_length_lookup_component)?;
+        } else {
+            self.enforce_constant(z1_var, F::zero())?;
         }
 
         // (9) z2 < 2^delta_length_non_lookup_range
@@ -498,6 +504,8 @@ impl<F: PrimeField> PlonkCircuit<F> {
         // so we don't need to add a selection gate here
         if delta_length_non_lookup_range != 0 {
             self.enforce_in_range(z2_var, delta_length_non_lookup_range)?;
+        } else {
+            self.enforce_constant(z2_var, F::zero())?;
         }
 
         Ok(())
-- 
2.43.0


From 63e9460e414cce3b273c037171f2f3e1f5b7648b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:17:17 +0000
Subject: [PATCH 16/40] fix: keep lookup gates at the rear of a finished
 circuit

Lookup gates were moved to the rear by the positions at which their table was
created. A public input declared after a table could take such a position, and
a table could end in the very last slot, which the lookup argument does not
cover. Honest proofs then failed, or false lookups were accepted.
---
 relation/src/constraint_system.rs | 35 +++++++++++++++++++------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/relation/src/constraint_system.rs b/relation/src/constraint_system.rs
index 4e37095..9d336c9 100644
--- a/relation/src/constraint_system.rs
+++ b/relation/src/constraint_system.rs
@@ -847,24 +847,33 @@ impl<F: FftField> PlonkCircuit<F> {
             // move lookup gates to the rear, the relative order of the lookup gates
             // should not change
             let n = self.eval_domain.size();
+            let is_lookup_gate = |gate: &Box<dyn Gate<F>>| gate.q_lookup() != F::zero();
             // be careful that we can't put a lookup gates at the very last slot.
-            let mut cur_gate_id = n - 2;
-            for &(table_gate_id, table_size) in self.table_gate_ids.iter().rev() {
-                for gate_id in (table_gate_id..table_gate_id + table_size).rev() {
-                    if gate_id < cur_gate_id {
-                        // Swap gate types
-                        self.gates.swap(gate_id, cur_gate_id);
-                        // Swap wire variables
-                        for j in 0..GATE_WIDTH + 1 {
-                            self.wire_variables[j].swap(gate_id, cur_gate_id);
-                        }
-                        cur_gate_id -= 1;
-                    }
-                }
+            if is_lookup_gate(&self.gates[n - 1]) {
+                let gate_id = (self.num_inputs()..n)
+                    .find(|&gate_id| !is_lookup_gate(&self.gates[gate_id]))
+                    .ok_or(IndexError)?;
+                self.swap_gates(gate_id, n - 1);
+            }
+            // the io gates might have displaced some of the lookup gates
+            let lookup_gate_ids: Vec<GateId> = (0..n)
+                .filter(|&gate_id| is_lookup_gate(&self.gates[gate_id]))
+                .collect();
+            for (i, &gate_id) in lookup_gate_ids.iter().rev().enumerate() {
+                self.swap_gates(gate_id, n - 2 - i);
             }
         }
         Ok(())
     }
+
+    // Swap two gates together with their wire variables
+    fn swap_gates(&mut self, i: GateId, j: GateId) {
+        self.gates.swap(i, j);
+        for wire_id in 0..GATE_WIDTH + 1 {
+            self.wire_variables[wire_id].swap(i, j);
+        }
+    }
+
     // use downcast to check whether a gate is of IoGate type
     fn is_io_gate(&self, gate_id: GateId) -> bool {
         self.gates[gate_id].as_any().is::<IoGate>()
-- 
2.43.0


From d837123e5e62ace3c316dcb7c6967f463d4b46f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:30:27 +0000
Subject: [PATCH 17/40] fix: bound the highest window of a scalar in windowed
 multiplication

The windows of a scalar in the lookup based multi-scalar multiplication
covered more bits than the scalar has. The windows of the scalar plus the
size of the field were accepted too, which proves a wrong product.
---
 relation/src/gadgets/ecc/msm.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/relation/src/gadgets/ecc/msm.rs b/relation/src/gadgets/ecc/msm.rs
index a21a1b6..4f819a8 100644
--- a/relation/src/gadgets/ecc/msm.rs
+++ b/relation/src/gadgets/ecc/msm.rs
@@ -334,6 +334,12 @@ where
     let range_size = F::from((1 << c) as u32);
     circuit.decomposition_gate(decomposed_scalar_vars.clone(), scalar_var, range_size)?;
 
+    // the highest window may hold less than `c` bits of the scalar
+    let top_bit_length = scalar_bit_length - c * (m - 1);
+    if top_bit_length < c {
+        circuit.enforce_in_range(decomposed_scalar_vars[m - 1], top_bit_length)?;
+    }
+
     Ok(decomposed_scalar_vars)
 }
 
-- 
2.43.0


From 886c530ef3b40ba090b342bc7bfdd58d605157bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:30:58 +0000
Subject: [PATCH 18/40] fix: multiply the neutral point with the endomorphism
 shortcut

The endomorphism divides by the product of the coordinates. It panicked on
the neutral point and left the first coordinate of the image free.
---
 relation/src/gadgets/ecc/glv.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/relation/src/gadgets/ecc/glv.rs b/relation/src/gadgets/ecc/glv.rs
index 686201e..0f65cb1 100644
--- a/relation/src/gadgets/ecc/glv.rs
+++ b/relation/src/gadgets/ecc/glv.rs
@@ -132,6 +132,11 @@ where
     F: PrimeField,
     P: TECurveConfig<BaseField = F>,
 {
+    // the formula below does not cover the neutral point
+    if *base == TEPoint::default() {
+        return *base;
+    }
+
     let x = base.get_x();
     let y = base.get_y();
     let b = F::from_le_bytes_mod_order(COEFF_B.as_ref());
@@ -197,7 +202,10 @@ where
     // res_y = g(y) / h(y)
     circuit.mul_gate(endo_point_var.get_y(), h_y_var, g_y_var)?;
 
-    Ok(endo_point_var)
+    // the neutral point is mapped to itself
+    let is_neutral = circuit.is_neutral_point::<P>(point_var)?;
+    let neutral_point_var = circuit.neutral_point_variable();
+    circuit.binary_point_vars_select(is_neutral, &endo_point_var, &neutral_point_var)
 }
 
 /// Decompose a scalar s into k1, k2, s.t.
-- 
2.43.0


From c72818a4e949a80dc1276b12339064996b6d6c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:43:46 +0000
Subject: [PATCH 19/40] fix: pass the carry on when adding emulated limbs

---
 relation/src/gadgets/emulated.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/relation/src/gadgets/emulated.rs b/relation/src/gadgets/emulated.rs
index 10486ba..8bb4777 100644
--- a/relation/src/gadgets/emulated.rs
+++ b/relation/src/gadgets/emulated.rs
@@ -450,7 +450,8 @@ impl<F: PrimeField> PlonkCircuit<F> {
         let mut carry_out = self.zero();
         for (a, b, c) in izip!(&a.0, &b.0, &add_no_mod_limbs) {
             let next_carry_out =
-                F::from(<F as Into<BigUint>>::into(self.witness(*a)? + self.witness(*b)?) / &b_pow);
+                self.witness(*a)? + self.witness(*b)? + self.witness(carry_out)?;
+            let next_carry_out = F::from(<F as Into<BigUint>>::into(next_carry_out) / &b_pow);
             let next_carry_out = self.create_variable(next_carry_out)?;
             self.enforce_bool(next_carry_out)?;
 
@@ -465,8 +466,8 @@ impl<F: PrimeField> PlonkCircuit<F> {
         // Checking whether k * E::MODULUS + c = add_no_mod_limbs
         carry_out = self.zero();
         for (a, b, c) in izip!(modulus_limbs, &c.0, &add_no_mod_limbs) {
-            let next_carry_out =
-                F::from(<F as Into<BigUint>>::into(a * F::from(k) + self.witness(*b)?) / &b_pow);
+            let next_carry_out = a * F::from(k) + self.witness(*b)? + self.witness(carry_out)?;
+            let next_carry_out = F::from(<F as Into<BigUint>>::into(next_carry_out) / &b_pow);
             let next_carry_out = self.create_variable(next_carry_out)?;
             self.enforce_bool(next_carry_out)?;
 
@@ -532,8 +533,8 @@ impl<F: PrimeField> PlonkCircuit<F> {
         // Checking whether a + b = add_no_mod_limbs
         let mut carry_out = self.zero();
         for (a, b, c) in izip!(&a.0, b_limbs, &add_no_mod_limbs) {
-            let next_carry_out =
-                F::from(<F as Into<BigUint>>::into(self.witness(*a)? + b) / &b_pow);
+            let next_carry_out = self.witness(*a)? + b + self.witness(carry_out)?;
+            let next_carry_out = F::from(<F as Into<BigUint>>::into(next_carry_out) / &b_pow);
             let next_carry_out = self.create_variable(next_carry_out)?;
             self.enforce_bool(next_carry_out)?;
 
@@ -548,8 +549,8 @@ impl<F: PrimeField> PlonkCircuit<F> {
         // Checking whether k * q + c = add_no_mod_limbs
         carry_out = self.zero();
         for (a, b, c) in izip!(q_limbs, &c.0, &add_no_mod_limbs) {
-            let next_carry_out =
-                F::from(<F as Into<BigUint>>::into(a * F::from(k) + self.witness(*b)?) / &b_pow);
+            let next_carry_out = a * F::from(k) + self.witness(*b)? + self.witness(carry_out)?;
+            let next_carry_out = F::from(<F as Into<BigUint>>::into(next_carry_out) / &b_pow);
             let next_carry_out = self.create_variable(next_carry_out)?;
             self.enforce_bool(next_carry_out)?;
 
-- 
2.43.0


From 0f1a4674f5dae946b3bfcf10d397106a37cab885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:43:46 +0000
Subject: [PATCH 20/40] fix: forbid a carry out of the highest limb in emulated
 additions

---
 relation/src/gadgets/emulated.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/relation/src/gadgets/emulated.rs b/relation/src/gadgets/emulated.rs
index 8bb4777..174f143 100644
--- a/relation/src/gadgets/emulated.rs
+++ b/relation/src/gadgets/emulated.rs
@@ -462,6 +462,7 @@ impl<F: PrimeField> PlonkCircuit<F> {
 
             self.enforce_in_range(*c, E::B)?;
         }
+        self.enforce_constant(carry_out, F::zero())?;
 
         // Checking whether k * E::MODULUS + c = add_no_mod_limbs
         carry_out = self.zero();
@@ -476,6 +477,7 @@ impl<F: PrimeField> PlonkCircuit<F> {
             self.lc_gate(&wires, &coeffs)?;
             carry_out = next_carry_out;
         }
+        self.enforce_constant(carry_out, F::zero())?;
         Ok(())
     }
 
@@ -545,6 +547,7 @@ impl<F: PrimeField> PlonkCircuit<F> {
 
             self.enforce_in_range(*c, E::B)?;
         }
+        self.enforce_constant(carry_out, F::zero())?;
 
         // Checking whether k * q + c = add_no_mod_limbs
         carry_out = self.zero();
@@ -559,6 +562,7 @@ impl<F: PrimeField> PlonkCircuit<F> {
             self.lc_gate(&wires, &coeffs)?;
             carry_out = next_carry_out;
         }
+        self.enforce_constant(carry_out, F::zero())?;
         Ok(())
     }
 
-- 
2.43.0


From 8d15c7d97ae51ae298992e7d0eddb592c7963231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:43:46 +0000
Subject: [PATCH 21/40] fix: tie the infinity mark to opposite points when
 adding emulated points

---
 relation/src/gadgets/ecc/emulated/short_weierstrass.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/relation/src/gadgets/ecc/emulated/short_weierstrass.rs b/relation/src/gadgets/ecc/emulated/short_weierstrass.rs
index da6c337..38e0c2f 100644
--- a/relation/src/gadgets/ecc/emulated/short_weierstrass.rs
+++ b/relation/src/gadgets/ecc/emulated/short_weierstrass.rs
@@ -211,8 +211,8 @@ impl<F: PrimeField> PlonkCircuit<F> {
         // is 1 iff both p0 and p1 are not infinity
         let non_infinity_mark = self.logic_neg(infinity_mark)?;
 
-        // Case 2: p2 is infinity, while p0 and p1 are not.
-        // inf0 == 1 || inf1 == 1 || inf2 == 0 || x0 != x1 || (y0 == y1 && y0 != 0)
+        // Case 2: p0 and p1 are not infinity, p2 is infinity iff p0 == -p1.
+        // inf0 == 1 || inf1 == 1 || (inf2 == 0) == (x0 != x1 || (y0 == y1 && y0 != 0))
         let non_inf_p2 = self.logic_neg(p2.2)?;
         let eq_x0_x1 = self.is_emulated_var_equal(&p0.0, &p1.0)?;
         let neq_x0_x1 = self.logic_neg(eq_x0_x1)?;
@@ -221,7 +221,7 @@ impl<F: PrimeField> PlonkCircuit<F> {
         let not_y0_zero = self.logic_neg(is_y0_zero)?;
         let t = self.logic_and(eq_y0_y1, not_y0_zero)?;
         let t = self.logic_or(neq_x0_x1, t)?;
-        let t = self.logic_or(non_inf_p2, t)?;
+        let t = self.is_equal(non_inf_p2.into(), t.into())?;
         self.logic_or_gate(infinity_mark, t)?;
 
         // Case 3: point doubling
-- 
2.43.0


From 5597cec876a616486ea20ae8715c69ebb377421b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:08:41 +0000
Subject: [PATCH 22/40] fix: refuse to commit to or open polynomials larger
 than the parameters

---
 pcs/src/univariate_kzg/mod.rs | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/pcs/src/univariate_kzg/mod.rs b/pcs/src/univariate_kzg/mod.rs
index 7a60194..eeda2dd 100644
--- a/pcs/src/univariate_kzg/mod.rs
+++ b/pcs/src/univariate_kzg/mod.rs
@@ -97,13 +97,7 @@ impl<E: Pairing> PolynomialCommitmentScheme for UnivariateKzgPCS<E> {
         let commit_time =
             start_timer!(|| format!("Committing to polynomial of degree {} ", poly.degree()));
 
-        if poly.degree() > prover_param.powers_of_g.len() {
-            return Err(PCSError::InvalidParameters(format!(
-                "poly degree {} is larger than allowed {}",
-                poly.degree(),
-                prover_param.powers_of_g.len()
-            )));
-        }
+        check_degree(prover_param, poly)?;
 
         let (num_leading_zeros, plain_coeffs) = skip_leading_zeros_and_convert_to_bigints(poly);
 
@@ -150,6 +144,8 @@ impl<E: Pairing> PolynomialCommitmentScheme for UnivariateKzgPCS<E> {
         let open_time =
             start_timer!(|| format!("Opening polynomial of degree {}", polynomial.degree()));
 
+        check_degree(prover_param.borrow(), polynomial)?;
+
         let divisor = Self::Polynomial::from_coefficients_vec(vec![-*point, E::ScalarField::one()]);
 
         #[cfg(feature = "kzg-print-trace")]
@@ -333,6 +329,7 @@ impl<E: Pairing> UnivariatePCS for UnivariateKzgPCS<E> {
     ) -> Result<Vec<Self::Proof>, PCSError> {
         #[cfg(not(feature = "seq-fk-23"))]
         {
+            check_degree(prover_param.borrow(), polynomial)?;
             let h_poly_timer = start_timer!(|| "compute h_poly");
             let h_poly = Self::compute_h_poly_parallel(prover_param, &polynomial.coeffs)?;
             end_timer!(h_poly_timer);
@@ -423,6 +420,7 @@ impl<E: Pairing> UnivariatePCS for UnivariateKzgPCS<E> {
                 "no point to evaluate and open".to_string(),
             ));
         }
+        check_degree(prover_param.borrow(), polynomial)?;
         let open_time = start_timer!(|| format!(
             "Opening polynomial of degree {} at {} points",
             polynomial.degree(),
@@ -1041,6 +1039,21 @@ pub(crate) mod icicle {
     }
 }
 
+/// Returns an error if the parameters do not support the polynomial's degree.
+fn check_degree<E: Pairing>(
+    prover_param: &UnivariateProverParam<E>,
+    poly: &DensePolynomial<E::ScalarField>,
+) -> Result<(), PCSError> {
+    if poly.degree() >= prover_param.powers_of_g.len() {
+        return Err(PCSError::InvalidParameters(format!(
+            "poly degree {} is larger than allowed {}",
+            poly.degree(),
+            prover_param.powers_of_g.len().saturating_sub(1)
+        )));
+    }
+    Ok(())
+}
+
 fn skip_leading_zeros_and_convert_to_bigints<F: PrimeField, P: DenseUVPolynomial<F>>(
     p: &P,
 ) -> (usize, Vec<F::BigInt>) {
-- 
2.43.0


From 5fd62bd374c7b8efb22ce5b22ef7e38a454c210e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:08:41 +0000
Subject: [PATCH 23/40] fix: open a polynomial at any number of points instead
 of panicking

---
 pcs/src/poly.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/pcs/src/poly.rs b/pcs/src/poly.rs
index f2e04d4..608e830 100644
--- a/pcs/src/poly.rs
+++ b/pcs/src/poly.rs
@@ -122,16 +122,8 @@ where
     pub fn batch_evaluate(&self, points: &[F]) -> Vec<T> {
         // Horner: n * d
         // FFT: ~ d*log^2(d)  (independent of n, as long as n<=d)
-        // naive cutoff-point, not taking parallelism into consideration:
-        let cutoff_size = <F as FftField>::TWO_ADICITY.pow(2);
-
-        if points.is_empty() {
-            Vec::new()
-        } else if points.len() < cutoff_size as usize {
-            points.iter().map(|x| self.evaluate(x)).collect()
-        } else {
-            unimplemented!("TODO: (alex) implements Appendix A of FK23");
-        }
+        // TODO: (alex) implements Appendix A of FK23 for large n
+        points.iter().map(|x| self.evaluate(x)).collect()
     }
 
     /// Similar task as [`Self::batch_evaluate()`], except the points are
-- 
2.43.0


From 845cd129bc02db31ffb13f81beefde7b84c11bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:08:41 +0000
Subject: [PATCH 24/40] fix: refuse to open on an evaluation domain smaller
 than the polynomial

---
 pcs/src/univariate_kzg/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pcs/src/univariate_kzg/mod.rs b/pcs/src/univariate_kzg/mod.rs
index eeda2dd..3aaea94 100644
--- a/pcs/src/univariate_kzg/mod.rs
+++ b/pcs/src/univariate_kzg/mod.rs
@@ -340,6 +340,13 @@ impl<E: Pairing> UnivariatePCS for UnivariateKzgPCS<E> {
                         h_poly.degree() + 1,
                     ))
                 })?;
+            if domain.size() < small_domain.size() {
+                return Err(PCSError::InvalidParameters(format!(
+                    "domain of size {} is too small for a polynomial of degree {}",
+                    domain.size(),
+                    polynomial.degree(),
+                )));
+            }
             let parallel_factor = domain.size() / small_domain.size();
 
             let mut offsets = Vec::with_capacity(parallel_factor);
-- 
2.43.0


From b60df889c3f40d2f558fe43150c106ad2e25dfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:08:41 +0000
Subject: [PATCH 25/40] fix: refuse batch verification of lists of different
 lengths

---
 pcs/src/univariate_kzg/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pcs/src/univariate_kzg/mod.rs b/pcs/src/univariate_kzg/mod.rs
index 3aaea94..b4b4288 100644
--- a/pcs/src/univariate_kzg/mod.rs
+++ b/pcs/src/univariate_kzg/mod.rs
@@ -247,6 +247,18 @@ impl<E: Pairing> PolynomialCommitmentScheme for UnivariateKzgPCS<E> {
     ) -> Result<bool, PCSError> {
         let check_time =
             start_timer!(|| format!("Checking {} evaluation proofs", multi_commitment.len()));
+        if multi_commitment.len() != points.len()
+            || points.len() != values.len()
+            || values.len() != batch_proof.len()
+        {
+            return Err(PCSError::InvalidParameters(format!(
+                "{} commitments, {} points, {} values and {} proofs should be equally many",
+                multi_commitment.len(),
+                points.len(),
+                values.len(),
+                batch_proof.len()
+            )));
+        }
 
         let mut total_c = <E::G1>::zero();
         let mut total_w = <E::G1>::zero();
-- 
2.43.0


From 868cee310dbed644ede8be52706f33cd9d1b7b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:08:41 +0000
Subject: [PATCH 26/40] fix: return an error instead of panicking on repeated
 evaluation points

---
 pcs/src/univariate_kzg/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pcs/src/univariate_kzg/mod.rs b/pcs/src/univariate_kzg/mod.rs
index b4b4288..2633b92 100644
--- a/pcs/src/univariate_kzg/mod.rs
+++ b/pcs/src/univariate_kzg/mod.rs
@@ -507,6 +507,11 @@ impl<E: Pairing> UnivariatePCS for UnivariateKzgPCS<E> {
                 values.len(),
             )));
         }
+        if (1..points.len()).any(|i| points[..i].contains(&points[i])) {
+            return Err(PCSError::InvalidParameters(
+                "the evaluation points are not distinct".to_string(),
+            ));
+        }
         if verifier_param.borrow().powers_of_h.len() < points.len() + 1 {
             return Err(PCSError::InvalidParameters(format!(
                 "the number of powers of beta times h {} in SRS <= the number of evaluation points {}",
-- 
2.43.0


From 88179a840374a007c9c982b0a4baee832b047de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:08:41 +0000
Subject: [PATCH 27/40] fix: refuse multilinear opening proofs of the wrong
 length

---
 pcs/src/multilinear_kzg/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pcs/src/multilinear_kzg/mod.rs b/pcs/src/multilinear_kzg/mod.rs
index 652d37e..073e548 100644
--- a/pcs/src/multilinear_kzg/mod.rs
+++ b/pcs/src/multilinear_kzg/mod.rs
@@ -381,6 +381,14 @@ fn verify_internal<E: Pairing>(
         )));
     }
 
+    if proof.proofs.len() != num_var {
+        return Err(PCSError::InvalidParameters(format!(
+            "proof length ({}) does not match point length ({})",
+            proof.proofs.len(),
+            num_var
+        )));
+    }
+
     let prepare_inputs_timer = start_timer!(|| "prepare pairing inputs");
 
     let h_mul = verifier_param.h.into_group().batch_mul(point);
-- 
2.43.0


From 7a373286b41f7d4a432bf55afdbfb8a326001806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:08:41 +0000
Subject: [PATCH 28/40] fix: batch commit with the parameters of the merged
 number of variables

---
 pcs/src/multilinear_kzg/mod.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pcs/src/multilinear_kzg/mod.rs b/pcs/src/multilinear_kzg/mod.rs
index 073e548..e96ae57 100644
--- a/pcs/src/multilinear_kzg/mod.rs
+++ b/pcs/src/multilinear_kzg/mod.rs
@@ -159,6 +159,13 @@ impl<E: Pairing> PolynomialCommitmentScheme for MultilinearKzgPCS<E> {
         let prover_param = prover_param.borrow();
         let commit_timer = start_timer!(|| "multi commit");
         let poly = merge_polynomials(polys)?;
+        if prover_param.0.num_vars < poly.num_vars {
+            return Err(PCSError::InvalidParameters(format!(
+                "Poly length ({}) exceeds param limit ({})",
+                poly.num_vars, prover_param.0.num_vars
+            )));
+        }
+        let ignored = prover_param.0.num_vars - poly.num_vars;
 
         let scalars: Vec<_> = poly
             .to_evaluations()
@@ -166,9 +173,11 @@ impl<E: Pairing> PolynomialCommitmentScheme for MultilinearKzgPCS<E> {
             .map(|x| x.into_bigint())
             .collect();
 
-        let commitment =
-            E::G1::msm_bigint(&prover_param.0.powers_of_g[0].evals, scalars.as_slice())
-                .into_affine();
+        let commitment = E::G1::msm_bigint(
+            &prover_param.0.powers_of_g[ignored].evals,
+            scalars.as_slice(),
+        )
+        .into_affine();
 
         end_timer!(commit_timer);
         Ok(Commitment(commitment))
-- 
2.43.0


From c0aadcd79c376bb14dfc66cc188f966e233dad25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:08:41 +0000
Subject: [PATCH 29/40] fix: interpolate the composed polynomial over a large
 enough domain

---
 pcs/src/multilinear_kzg/util.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pcs/src/multilinear_kzg/util.rs b/pcs/src/multilinear_kzg/util.rs
index 7d79b3e..1a98f4f 100644
--- a/pcs/src/multilinear_kzg/util.rs
+++ b/pcs/src/multilinear_kzg/util.rs
@@ -97,11 +97,11 @@ pub(crate) fn compute_w_circ_l<F: PrimeField>(
     let mut res_eval: Vec<F> = vec![];
 
     // TODO: consider to pass this in from caller
-    // uni_degree is (product of each prefix's) + (2 * MLEs)
-    // = (l.len() - (num_vars - log(l.len())) + 2) * l[0].degree
-    let uni_degree = (l.len() - w.num_vars + log2(l.len()) as usize + 2) * l[0].degree();
+    // W is linear in each variable, so the degree is at most the sum of the
+    // degrees of l
+    let uni_degree: usize = l.iter().map(|x| x.degree()).sum();
 
-    let domain = match Radix2EvaluationDomain::<F>::new(uni_degree) {
+    let domain = match Radix2EvaluationDomain::<F>::new(uni_degree + 1) {
         Some(p) => p,
         None => {
             return Err(PCSError::InvalidParameters(
-- 
2.43.0


From 0e43cdd98b8ca2ee167c6840e0454c444e3009f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:21 +0000
Subject: [PATCH 30/40] fix: advance the alpha powers by key type when
 verifying an aggregated proof

The combiner of the second and later instances assumed that every key is of
the type of the first one, so with mixed keys the terms of one instance
overlapped those of the next.
---
 plonk/src/proof_system/verifier.rs | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/plonk/src/proof_system/verifier.rs b/plonk/src/proof_system/verifier.rs
index 7d1b3cb..991078a 100644
--- a/plonk/src/proof_system/verifier.rs
+++ b/plonk/src/proof_system/verifier.rs
@@ -129,18 +129,15 @@ where
         let alpha_6 = alpha_4 * alpha_2;
         let alpha_7 = alpha_3 * alpha_4;
         let alpha_powers = vec![alpha_2, alpha_3, alpha_4, alpha_5, alpha_6];
-        let mut alpha_bases = vec![E::ScalarField::one()];
-
-        let mut tmp = if verify_keys[0].plookup_vk.is_some() {
-            alpha_7
-        } else {
-            alpha_3
-        };
-        if verify_keys.len() > 1 {
-            for _ in 0..verify_keys.len() - 1 {
-                alpha_bases.push(tmp);
-                tmp *= alpha_bases[1];
-            }
+        let mut alpha_bases = vec![];
+        let mut tmp = E::ScalarField::one();
+        for vk in verify_keys {
+            alpha_bases.push(tmp);
+            tmp *= if vk.plookup_vk.is_some() {
+                alpha_7
+            } else {
+                alpha_3
+            };
         }
 
         let vanish_eval = self.evaluate_vanishing_poly(&challenges.zeta);
-- 
2.43.0


From 7b7dc51d32cc50b96b9a03cc7a014124ad7622f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:30:39 +0000
Subject: [PATCH 31/40] fix: refuse proofs whose lists have the wrong lengths

The verifier paired commitments with values by position without checking how
many there were. A proof with lists of other lengths made it panic, or was
checked with the values against the wrong commitments.
---
 plonk/src/proof_system/verifier.rs | 38 ++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/plonk/src/proof_system/verifier.rs b/plonk/src/proof_system/verifier.rs
index 991078a..6510809 100644
--- a/plonk/src/proof_system/verifier.rs
+++ b/plonk/src/proof_system/verifier.rs
@@ -89,6 +89,7 @@ where
             ))
             .into());
         }
+        Self::check_proof_shape(verify_keys, batch_proof)?;
         for (i, (&pub_input, &vk)) in public_inputs.iter().zip(verify_keys.iter()).enumerate() {
             if pub_input.len() != vk.num_inputs {
                 return Err(ParameterError(
@@ -185,6 +186,43 @@ where
         })
     }
 
+    /// Check that every list in the proof has the length that the verification
+    /// keys call for.
+    fn check_proof_shape(
+        verify_keys: &[&VerifyingKey<E>],
+        batch_proof: &BatchProof<E>,
+    ) -> Result<(), PlonkError> {
+        let num_instances = verify_keys.len();
+        if batch_proof.wires_poly_comms_vec.len() != num_instances
+            || batch_proof.poly_evals_vec.len() != num_instances
+            || batch_proof.plookup_proofs_vec.len() != num_instances
+            || batch_proof.split_quot_poly_comms.len() != verify_keys[0].sigma_comms.len()
+        {
+            return Err(ParameterError(format!(
+                "the proof does not have the shape of a proof over {num_instances} instances",
+            ))
+            .into());
+        }
+        for (i, vk) in verify_keys.iter().enumerate() {
+            let num_wire_types = vk.sigma_comms.len();
+            let poly_evals = &batch_proof.poly_evals_vec[i];
+            let num_h_polys = batch_proof.plookup_proofs_vec[i]
+                .as_ref()
+                .map_or(2, |proof| proof.h_poly_comms.len());
+            if batch_proof.wires_poly_comms_vec[i].len() != num_wire_types
+                || poly_evals.wires_evals.len() != num_wire_types
+                || poly_evals.wire_sigma_evals.len() + 1 != num_wire_types
+                || num_h_polys != 2
+            {
+                return Err(ParameterError(format!(
+                    "the {i}-th instance of the proof does not have the shape that its verification key calls for",
+                ))
+                .into());
+            }
+        }
+        Ok(())
+    }
+
     /// Batchly verify multiple (aggregated) PCS opening proofs.
     ///
     /// We need to verify that:
-- 
2.43.0


From f72dc3193a58cb8ddae3610dc5f5423e95d828b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:30:39 +0000
Subject: [PATCH 32/40] fix: return an error for coordinates of no point when
 reading a proof

Reading a proof from a list of base field elements panicked when a pair of
elements was not a point of the group.
---
 plonk/src/proof_system/structs.rs | 44 +++++++++++++++++--------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/plonk/src/proof_system/structs.rs b/plonk/src/proof_system/structs.rs
index edb33f7..3b378cb 100644
--- a/plonk/src/proof_system/structs.rs
+++ b/plonk/src/proof_system/structs.rs
@@ -92,37 +92,25 @@ where
         if value.len() == TURBO_PLONK_LEN {
             // NOTE: for convenience, we slightly reordered our fields in Proof.
             let mut ptr = 0;
-            let wires_poly_comms: Vec<Commitment<E>> = value[ptr..ptr + (GATE_WIDTH + 1) * 2]
+            let wires_poly_comms = value[ptr..ptr + (GATE_WIDTH + 1) * 2]
                 .chunks_exact(2)
-                .map(|chunk| {
-                    if chunk.len() == 2 {
-                        Commitment(Affine::new(chunk[0], chunk[1]))
-                    } else {
-                        unreachable!("Internal error");
-                    }
-                })
-                .collect();
+                .map(|chunk| fields_to_commitment(chunk[0], chunk[1]))
+                .collect::<Result<Vec<_>, _>>()?;
             ptr += (GATE_WIDTH + 1) * 2;
 
             let split_quot_poly_comms = value[ptr..ptr + (GATE_WIDTH + 1) * 2]
                 .chunks_exact(2)
-                .map(|chunk| {
-                    if chunk.len() == 2 {
-                        Commitment(Affine::new(chunk[0], chunk[1]))
-                    } else {
-                        unreachable!("Internal error");
-                    }
-                })
-                .collect();
+                .map(|chunk| fields_to_commitment(chunk[0], chunk[1]))
+                .collect::<Result<Vec<_>, _>>()?;
             ptr += (GATE_WIDTH + 1) * 2;
 
-            let prod_perm_poly_comm = Commitment(Affine::new(value[ptr], value[ptr + 1]));
+            let prod_perm_poly_comm = fields_to_commitment(value[ptr], value[ptr + 1])?;
             ptr += 2;
 
-            let opening_proof = Commitment(Affine::new(value[ptr], value[ptr + 1]));
+            let opening_proof = fields_to_commitment(value[ptr], value[ptr + 1])?;
             ptr += 2;
 
-            let shifted_opening_proof = Commitment(Affine::new(value[ptr], value[ptr + 1]));
+            let shifted_opening_proof = fields_to_commitment(value[ptr], value[ptr + 1])?;
             ptr += 2;
 
             let poly_evals_scalars: Vec<E::ScalarField> = value[ptr..]
@@ -148,6 +136,22 @@ where
     }
 }
 
+// helper function to convert the coordinates of a G1 point into a commitment
+fn fields_to_commitment<E, P>(x: E::BaseField, y: E::BaseField) -> Result<Commitment<E>, SnarkError>
+where
+    E: Pairing<G1Affine = Affine<P>>,
+    P: SWCurveConfig<BaseField = E::BaseField>,
+{
+    let point = Affine::new_unchecked(x, y);
+    if point.is_on_curve() && point.is_in_correct_subgroup_assuming_on_curve() {
+        Ok(Commitment(point))
+    } else {
+        Err(SnarkError::ParameterError(
+            "the coordinates are not those of a point in the group".to_string(),
+        ))
+    }
+}
+
 // helper function to convert a G1Affine or G2Affine into two base fields
 fn group1_to_fields<E, P>(p: Affine<P>) -> Vec<E::BaseField>
 where
-- 
2.43.0


From 15fdf5fa957ab0d7dacf764c3c9e1a5d18b52d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:39:48 +0000
Subject: [PATCH 33/40] fix: return an error when merging circuits without
 public inputs

Merging looks at the position of the first public input to tell the type of a
circuit and panicked when there was none.
---
 relation/src/constraint_system.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/relation/src/constraint_system.rs b/relation/src/constraint_system.rs
index 9d336c9..aa37cb7 100644
--- a/relation/src/constraint_system.rs
+++ b/relation/src/constraint_system.rs
@@ -1281,12 +1281,12 @@ impl<F: PrimeField> PlonkCircuit<F> {
                 other.num_inputs()
             )));
         }
-        if self.pub_input_gate_ids[0] != 0 {
+        if self.pub_input_gate_ids.first() != Some(&0) {
             return Err(ParameterError(
                 "the first circuit is not type A".to_string(),
             ));
         }
-        if other.pub_input_gate_ids[0] != other.eval_domain_size()? - 1 {
+        if other.pub_input_gate_ids.first() != Some(&(other.eval_domain_size()? - 1)) {
             return Err(ParameterError(
                 "the second circuit is not type B".to_string(),
             ));
-- 
2.43.0


From 168bd98a3dc1dcda00241e9caa4132f760dc2059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:05:37 +0000
Subject: [PATCH 34/40] fix: count the length prefix in the announced size of
 BLS12-381 keys and signatures

---
 signature/src/bls_over_bls12381.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/signature/src/bls_over_bls12381.rs b/signature/src/bls_over_bls12381.rs
index 26c7892..f18060e 100644
--- a/signature/src/bls_over_bls12381.rs
+++ b/signature/src/bls_over_bls12381.rs
@@ -185,12 +185,14 @@ impl CanonicalSerialize for BLSVerKey {
         }
     }
 
-    fn serialized_size(&self, _compress: Compress) -> usize {
-        BLS_SIG_COMPRESSED_PK_SIZE
-    }
-
-    fn uncompressed_size(&self) -> usize {
-        BLS_SIG_PK_SIZE
+    // the bytes are written as a slice, i.e. after their length
+    fn serialized_size(&self, compress: Compress) -> usize {
+        let size = if compress == Compress::Yes {
+            BLS_SIG_COMPRESSED_PK_SIZE
+        } else {
+            BLS_SIG_PK_SIZE
+        };
+        size.serialized_size(Compress::Yes) + size
     }
 }
 
@@ -266,12 +268,14 @@ impl CanonicalSerialize for BLSSignature {
         }
     }
 
+    // the bytes are written as a slice, i.e. after their length
     fn serialized_size(&self, compress: Compress) -> usize {
-        if compress == Compress::Yes {
+        let size = if compress == Compress::Yes {
             BLS_SIG_COMPRESSED_SIGNATURE_SIZE
         } else {
             BLS_SIG_SIGNATURE_SIZE
-        }
+        };
+        size.serialized_size(Compress::Yes) + size
     }
 }
 
-- 
2.43.0


From b82d6b876371d278e676f65f67496e4ee2d9614b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:05:37 +0000
Subject: [PATCH 35/40] fix: refuse AEAD nonces of the wrong length and read
 them back from JSON

---
 aead/src/lib.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/aead/src/lib.rs b/aead/src/lib.rs
index 106a0d2..0085644 100644
--- a/aead/src/lib.rs
+++ b/aead/src/lib.rs
@@ -226,17 +226,21 @@ impl<'de> Deserialize<'de> for Nonce {
             where
                 E: serde::de::Error,
             {
-                Ok(Nonce(*XNonce::from_slice(&v)))
+                let bytes: [u8; 24] = v
+                    .try_into()
+                    .map_err(|v: Vec<u8>| E::invalid_length(v.len(), &self))?;
+                Ok(Nonce(XNonce::from(bytes)))
             }
 
             fn visit_seq<A>(self, mut seq: A) -> Result<Self::Value, A::Error>
             where
                 A: serde::de::SeqAccess<'de>,
             {
-                let bytes: Vec<u8> = seq
-                    .next_element()?
-                    .ok_or_else(|| serde::de::Error::invalid_length(0, &self))?;
-                Ok(Nonce(*XNonce::from_slice(&bytes)))
+                let mut bytes = Vec::new();
+                while let Some(byte) = seq.next_element()? {
+                    bytes.push(byte);
+                }
+                self.visit_byte_buf(bytes)
             }
         }
 
-- 
2.43.0


From e578db109777aff629b5ec1aabd9f4b9bcccc190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:05:37 +0000
Subject: [PATCH 36/40] fix: refuse flat ElGamal ciphertexts whose point is not
 in the group

---
 elgamal/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/elgamal/src/lib.rs b/elgamal/src/lib.rs
index ab5f34c..a4585e3 100644
--- a/elgamal/src/lib.rs
+++ b/elgamal/src/lib.rs
@@ -146,7 +146,12 @@ where
                 "At least 2 scalars in length for ciphertext".to_string(),
             ));
         }
-        let key = Affine::new(scalars[0], scalars[1]);
+        let key = Affine::new_unchecked(scalars[0], scalars[1]);
+        if !key.is_on_curve() || !key.is_in_correct_subgroup_assuming_on_curve() {
+            return Err(ParameterError(
+                "The ephemeral key of the ciphertext is not in the group".to_string(),
+            ));
+        }
 
         let ephemeral = EncKey {
             key: key.into_group(),
-- 
2.43.0


From 7badb2e65d85656b851552143aab5376d591509f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:52:15 +0000
Subject: [PATCH 37/40] fix: bound the remainder of a modular sum by the
 modulus

The remainder was only range checked against the size of the circuit field,
so a larger quotient with a wrapped around remainder was accepted.
---
 relation/src/gadgets/ultraplonk/mod_arith.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/relation/src/gadgets/ultraplonk/mod_arith.rs b/relation/src/gadgets/ultraplonk/mod_arith.rs
index 166d3f2..b7d97a7 100644
--- a/relation/src/gadgets/ultraplonk/mod_arith.rs
+++ b/relation/src/gadgets/ultraplonk/mod_arith.rs
@@ -302,6 +302,13 @@ impl<F: PrimeField> PlonkCircuit<F> {
         Ok(y_var)
     }
 
+    /// The number of range blocks of modulus `p`, i.e., the minimal integer
+    /// l_p such that any value smaller than p is in [0, range_size^l_p).
+    fn num_modulus_blocks(&self, p: &F) -> Result<usize, CircuitError> {
+        let p_int: BigUint = to_big_int!(p);
+        Ok((p_int.bits() as usize).div_ceil(self.range_bit_len()?))
+    }
+
     /// Modular addition gate:
     /// Given Fp elements x, y and modulus p, compute z = x + y mod p
     pub fn mod_add(
@@ -339,8 +346,8 @@ impl<F: PrimeField> PlonkCircuit<F> {
         let x_var = x.convert_to_var(self)?;
         let y_var = y.convert_to_var(self)?;
 
-        let num_range_blocks = self.num_range_blocks()?;
-        let res = self.mod_add_internal(&[x_var, y_var], p.field_elem(), num_range_blocks)?;
+        let l_p = self.num_modulus_blocks(&p.field_elem())?;
+        let res = self.mod_add_internal(&[x_var, y_var], p.field_elem(), l_p)?;
 
         FpElemVar::new_unchecked(self, res, x.m, Some(p.two_power_m))
     }
@@ -420,8 +427,8 @@ impl<F: PrimeField> PlonkCircuit<F> {
 
         // range check remainder \in [0, range_size^l_p)
         let remainder_var = self.create_variable(remainder)?;
-        let num_range_blocks = self.num_range_blocks()?;
-        self.range_gate_with_lookup(remainder_var, range_bit_len * num_range_blocks)?;
+        let l_p = self.num_modulus_blocks(&p_f)?;
+        self.range_gate_with_lookup(remainder_var, range_bit_len * l_p)?;
 
         // add constraint: x - remainder - p * divisor  + y = 0
         let wires = [x_var, remainder_var, divisor_var, self.zero(), self.zero()];
@@ -471,8 +478,8 @@ impl<F: PrimeField> PlonkCircuit<F> {
             .map(|y| y.convert_to_var(self))
             .collect::<Result<Vec<Variable>, _>>()?;
 
-        let num_range_blocks = self.num_range_blocks()?;
-        let res = self.mod_add_internal(x_vars.as_ref(), p.field_elem(), num_range_blocks)?;
+        let l_p = self.num_modulus_blocks(&p.field_elem())?;
+        let res = self.mod_add_internal(x_vars.as_ref(), p.field_elem(), l_p)?;
 
         FpElemVar::new_unchecked(self, res, p.m, Some(p.two_power_m))
     }
-- 
2.43.0


From 608313fc3be9949360e2526add183106826c023a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:57:02 +0000
Subject: [PATCH 38/40] fix: range check the halves of modular sums and
 negations

The two halves of the result were only tied to their sum, so they could be
chosen freely, while products rely on both being in range.
---
 relation/src/gadgets/ultraplonk/mod_arith.rs | 23 ++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/relation/src/gadgets/ultraplonk/mod_arith.rs b/relation/src/gadgets/ultraplonk/mod_arith.rs
index b7d97a7..dc6664f 100644
--- a/relation/src/gadgets/ultraplonk/mod_arith.rs
+++ b/relation/src/gadgets/ultraplonk/mod_arith.rs
@@ -121,6 +121,21 @@ impl<F: PrimeField> FpElemVar<F> {
         })
     }
 
+    /// Create an FpElemVar from Fp element variable `var` and split parameter
+    /// `m`, with range checks on the resulting variables.
+    /// requires lookup table.
+    fn new_from_var(
+        cs: &mut PlonkCircuit<F>,
+        var: Variable,
+        m: usize,
+        two_power_m: Option<F>,
+    ) -> Result<Self, CircuitError> {
+        let res = Self::new_unchecked(cs, var, m, two_power_m)?;
+        cs.range_gate_with_lookup(res.vars.0, m)?;
+        cs.range_gate_with_lookup(res.vars.1, m)?;
+        Ok(res)
+    }
+
     /// Convert into a single variable with value `witness[vars.0] + 2^m *
     /// witness[vars.1]`
     pub fn convert_to_var(&self, cs: &mut PlonkCircuit<F>) -> Result<Variable, CircuitError> {
@@ -349,7 +364,7 @@ impl<F: PrimeField> PlonkCircuit<F> {
         let l_p = self.num_modulus_blocks(&p.field_elem())?;
         let res = self.mod_add_internal(&[x_var, y_var], p.field_elem(), l_p)?;
 
-        FpElemVar::new_unchecked(self, res, x.m, Some(p.two_power_m))
+        FpElemVar::new_from_var(self, res, x.m, Some(p.two_power_m))
     }
 
     /// Modular addition gate:
@@ -439,7 +454,7 @@ impl<F: PrimeField> PlonkCircuit<F> {
 
         self.quad_poly_gate(&wires, &q_lc, &q_mul, q_o, q_c)?;
 
-        FpElemVar::new_unchecked(self, remainder_var, x.m, Some(p.two_power_m))
+        FpElemVar::new_from_var(self, remainder_var, x.m, Some(p.two_power_m))
     }
 
     /// Modular addition gate:
@@ -481,7 +496,7 @@ impl<F: PrimeField> PlonkCircuit<F> {
         let l_p = self.num_modulus_blocks(&p.field_elem())?;
         let res = self.mod_add_internal(x_vars.as_ref(), p.field_elem(), l_p)?;
 
-        FpElemVar::new_unchecked(self, res, p.m, Some(p.two_power_m))
+        FpElemVar::new_from_var(self, res, p.m, Some(p.two_power_m))
     }
 
     /// Modular multiplication gate:
@@ -871,7 +886,7 @@ impl<F: PrimeField> PlonkCircuit<F> {
 
         self.lc_gate(&wires, &coeffs)?;
 
-        FpElemVar::new_unchecked(self, x_neg_var, x.m, Some(x.two_power_m))
+        FpElemVar::new_from_var(self, x_neg_var, x.m, Some(x.two_power_m))
     }
 }
 
-- 
2.43.0


From bb9cafdb379f0744cae5aaa34f0f42a0a39309ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:19:46 +0000
Subject: [PATCH 39/40] fix: keep the second half of split scalars positive

For scalars well below the group order the split could give a negative
second half, which the constraints of the split cannot express. The
circuit then refused an honest multiplication. Take the neighbouring
short split in that case.
---
 relation/src/gadgets/ecc/glv.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/relation/src/gadgets/ecc/glv.rs b/relation/src/gadgets/ecc/glv.rs
index 0f65cb1..2586be0 100644
--- a/relation/src/gadgets/ecc/glv.rs
+++ b/relation/src/gadgets/ecc/glv.rs
@@ -239,9 +239,17 @@ fn scalar_decomposition<F: PrimeField>(scalar: &F) -> (F, F, bool) {
 
     // b = vector([int(beta[0]), int(beta[1])]) * self.curve.N
     let b1: BigUint = &beta_1 * &n11 + &beta_2 * &n21;
-    let b2: BigUint = (&beta_1 * &n12 + &beta_2 * &n22) % r;
+    let b2: BigUint = (&beta_1 * &n12 + &beta_2 * &n22) % &r;
 
-    let k1 = F::from(scalar_z - b1);
+    // For small scalars the decomposition gate cannot be satisfied by a negative
+    // k2. Move on by the second basis vector, which makes k2 positive.
+    let (k1, b2) = if b2 < r_over_2 {
+        (scalar_z - b1, b2)
+    } else {
+        (scalar_z - b1 + n21, (b2 + &r - n22) % &r)
+    };
+
+    let k1 = F::from(k1);
     let is_k2_pos = b2 < r_over_2;
 
     let k2 = if is_k2_pos { F::from(b2) } else { -F::from(b2) };
-- 
2.43.0


From 4a64441d8a4fd494eaf38b1a9384d790668babf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:49:57 +0000
Subject: [PATCH 40/40] fix: build the same circuit for every absence proof of
 a height

The siblings of an empty level were wired to the constant zero, so the
circuit depended on which levels of the proof are empty and keys made for
one proof did not fit another. They are now variables of value zero.
---
 .../src/gadgets/universal_merkle_tree.rs      | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/merkle_tree/src/gadgets/universal_merkle_tree.rs b/merkle_tree/src/gadgets/universal_merkle_tree.rs
index b80f413..6eab569 100644
--- a/merkle_tree/src/gadgets/universal_merkle_tree.rs
+++ b/merkle_tree/src/gadgets/universal_merkle_tree.rs
@@ -95,18 +95,16 @@ where
             .iter()
             .zip(merkle_proof.path_values().iter())
             .map(|(branch, siblings)| {
-                let is_empty = siblings.is_empty();
+                // The siblings of an empty level are variables of value zero, so that
+                // the circuit is the same for all proofs of the same height.
+                let (sibling1, sibling2) = if siblings.is_empty() {
+                    (F::zero(), F::zero())
+                } else {
+                    (siblings[0], siblings[1])
+                };
                 Ok(Merkle3AryNodeVar {
-                    sibling1: if is_empty {
-                        self.zero()
-                    } else {
-                        self.create_variable(siblings[0])?
-                    },
-                    sibling2: if is_empty {
-                        self.zero()
-                    } else {
-                        self.create_variable(siblings[1])?
-                    },
+                    sibling1: self.create_variable(sibling1)?,
+                    sibling2: self.create_variable(sibling2)?,
                     is_left_child: self.create_boolean_variable(branch == &0)?,
                     is_right_child: self.create_boolean_variable(branch == &2)?,
                 })
-- 
2.43.0

