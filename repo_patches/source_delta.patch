From 399178c1166e898310f8fa2ef4e2f4a886e252c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:55 +0000
Subject: [PATCH 1/2] fix: align controls before appending a stream to the hash
 table

Tables whose controls end before their inputs (after constant_inputs, or
built from inputs alone) made stream_inputs panic on its own length check.
---
 poseidon-circuit/src/hash.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/poseidon-circuit/src/hash.rs b/poseidon-circuit/src/hash.rs
index 0f6cae6..b1d8aec 100644
--- a/poseidon-circuit/src/hash.rs
+++ b/poseidon-circuit/src/hash.rs
@@ -293,6 +293,9 @@ impl<F: PrimeField> PoseidonHashTable<F> {
         ctrl_start: u64,
         step: usize,
     ) {
+        // align controls with the inputs already added
+        self.controls.resize(self.inputs.len(), 0);
+
         let mut new_inps: Vec<_> = src.into_iter().copied().collect();
         assert_ne!(0, new_inps.len());
         let mut ctrl_series: Vec<_> = std::iter::successors(Some(ctrl_start), |n| {
-- 
2.43.0


From 202998467743c6ca0ac0f61b16ae37be6db2a1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:32 +0000
Subject: [PATCH 2/2] fix: refuse over-capacity tables in the parallel
 assignment too

The serial path asserts that the inputs and controls fit the capacity; the
parallel path cut them off silently and built a circuit without them.
---
 poseidon-circuit/src/hash.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/poseidon-circuit/src/hash.rs b/poseidon-circuit/src/hash.rs
index b1d8aec..e92a423 100644
--- a/poseidon-circuit/src/hash.rs
+++ b/poseidon-circuit/src/hash.rs
@@ -780,6 +780,7 @@ where
                 |mut region| self.fill_hash_tbl_custom(&mut region),
             )?;
             let data = self.data;
+            assert!(self.calcs >= data.inputs.len() && self.calcs >= data.controls.len());
 
             let inputs_i = data
                 .inputs
-- 
2.43.0

