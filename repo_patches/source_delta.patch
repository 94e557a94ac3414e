From dda9cb9523e66f3c4ec5bdaaf285ca9046c4c06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:51 +0000
Subject: [PATCH 01/10] kzg_multi_open: record batch verification weights under
 --cfg verif_hooks

---
 .../kzg_multi_open/src/fk20/verifier.rs       |  2 ++
 cryptography/kzg_multi_open/src/lib.rs        |  7 ++++++
 .../kzg_multi_open/src/verif_hooks.rs         | 24 +++++++++++++++++++
 3 files changed, 33 insertions(+)
 create mode 100644 cryptography/kzg_multi_open/src/verif_hooks.rs

diff --git a/cryptography/kzg_multi_open/src/fk20/verifier.rs b/cryptography/kzg_multi_open/src/fk20/verifier.rs
index 434a7ef..588f7fd 100644
--- a/cryptography/kzg_multi_open/src/fk20/verifier.rs
+++ b/cryptography/kzg_multi_open/src/fk20/verifier.rs
@@ -155,6 +155,8 @@ impl FK20Verifier {
             bit_reversed_proofs,
         );
         let r_powers = compute_powers(r, batch_size);
+        #[cfg(verif_hooks)]
+        crate::verif_hooks::record_weights(&r_powers);
         let num_unique_commitments = deduplicated_commitments.len();
 
         // 2. Compute a random linear combination of the proofs
diff --git a/cryptography/kzg_multi_open/src/lib.rs b/cryptography/kzg_multi_open/src/lib.rs
index be80867..22bd59f 100644
--- a/cryptography/kzg_multi_open/src/lib.rs
+++ b/cryptography/kzg_multi_open/src/lib.rs
@@ -1,3 +1,6 @@
+// `verif_hooks` is a rustc cfg that no manifest declares
+#![allow(unexpected_cfgs)]
+
 pub mod commit_key;
 mod fk20;
 pub mod verification_key;
@@ -7,6 +10,10 @@ pub use fk20::{
     Verifier, VerifierError,
 };
 
+/// Observation points for runtime monitors; only built with `--cfg verif_hooks`.
+#[cfg(verif_hooks)]
+pub mod verif_hooks;
+
 #[cfg(test)]
 mod naive;
 
diff --git a/cryptography/kzg_multi_open/src/verif_hooks.rs b/cryptography/kzg_multi_open/src/verif_hooks.rs
new file mode 100644
index 0000000..daa5904
--- /dev/null
+++ b/cryptography/kzg_multi_open/src/verif_hooks.rs
@@ -0,0 +1,24 @@
+//! Records, per thread, the weights that batch verification combines its
+//! openings with.
+use bls12_381::Scalar;
+use std::cell::RefCell;
+
+thread_local! {
+    static WEIGHTS: RefCell<Vec<Vec<Scalar>>> = const { RefCell::new(Vec::new()) };
+}
+
+/// Called once per batch verification, with one weight per opening.
+pub fn record_weights(weights: &[Scalar]) {
+    WEIGHTS.with(|w| {
+        let mut w = w.borrow_mut();
+        // bounded, for callers that never take the records
+        if w.len() < 16 {
+            w.push(weights.to_vec());
+        }
+    });
+}
+
+/// Returns and forgets what was recorded on this thread.
+pub fn take_weights() -> Vec<Vec<Scalar>> {
+    WEIGHTS.with(|w| std::mem::take(&mut *w.borrow_mut()))
+}
-- 
2.43.0


From e1a277eebbc146330da92cc50bf364932520b20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:14 +0000
Subject: [PATCH 02/10] fix: build the contexts on their own thread pool

DASContext::with_threads ran ProverContext::new outside the context's pool, so
its parallel iterators started rayon's global pool: a context asked for one
thread left one extra thread per CPU running for the life of the process.
---
 eip7594/src/lib.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/eip7594/src/lib.rs b/eip7594/src/lib.rs
index 814530e..b1f948e 100644
--- a/eip7594/src/lib.rs
+++ b/eip7594/src/lib.rs
@@ -137,11 +137,20 @@ impl DASContext {
                 .unwrap(),
         );
 
+        // Build the contexts on the pool, otherwise their parallel parts would
+        // start rayon's global thread pool.
+        let (prover_ctx, verifier_ctx) = thread_pool.install(|| {
+            (
+                ProverContext::new(trusted_setup, use_precomp),
+                VerifierContext::new(trusted_setup),
+            )
+        });
+
         DASContext {
             #[cfg(feature = "multithreaded")]
             thread_pool,
-            prover_ctx: ProverContext::new(trusted_setup, use_precomp),
-            verifier_ctx: VerifierContext::new(trusted_setup),
+            prover_ctx,
+            verifier_ctx,
         }
     }
 
-- 
2.43.0


From 0455ad424b4fdaae896fb94081930fe324f3b8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:49 +0000
Subject: [PATCH 03/10] fix: g1_lincomb and g2_lincomb return None on a length
 mismatch

---
 cryptography/bls12_381/src/lincomb.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cryptography/bls12_381/src/lincomb.rs b/cryptography/bls12_381/src/lincomb.rs
index fcd5160..42dab31 100644
--- a/cryptography/bls12_381/src/lincomb.rs
+++ b/cryptography/bls12_381/src/lincomb.rs
@@ -51,6 +51,9 @@ pub fn g2_lincomb_unsafe(points: &[G2Point], scalars: &[Scalar]) -> Option<G2Pro
 ///
 /// It filters out any points that are the identity.
 pub fn g1_lincomb(points: &[G1Point], scalars: &[Scalar]) -> Option<G1Projective> {
+    if points.len() != scalars.len() {
+        return None;
+    }
     let (points_filtered, scalars_filtered): (Vec<_>, Vec<_>) = points
         .iter()
         .zip(scalars)
@@ -72,6 +75,9 @@ pub fn g1_lincomb(points: &[G1Point], scalars: &[Scalar]) -> Option<G1Projective
 ///
 /// It filters out any points that are the identity.
 pub fn g2_lincomb(points: &[G2Point], scalars: &[Scalar]) -> Option<G2Projective> {
+    if points.len() != scalars.len() {
+        return None;
+    }
     let (points_filtered, scalars_filtered): (Vec<_>, Vec<_>) = points
         .iter()
         .zip(scalars)
-- 
2.43.0


From df4fc2f26553a1db95e2c29ad5671cfc15d5b76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:49 +0000
Subject: [PATCH 04/10] fix: poly_mul of a polynomial without coefficients is
 zero

---
 cryptography/polynomial/src/poly_coeff.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cryptography/polynomial/src/poly_coeff.rs b/cryptography/polynomial/src/poly_coeff.rs
index e0cf8b5..20c78c9 100644
--- a/cryptography/polynomial/src/poly_coeff.rs
+++ b/cryptography/polynomial/src/poly_coeff.rs
@@ -52,6 +52,9 @@ pub fn poly_eval(poly: &PolyCoeff, value: &Scalar) -> Scalar {
 /// For two polynomials, `f(x)` and `g(x)`, this method computes
 /// the result of `f(x) * g(x)` and returns the result.
 pub fn poly_mul(a: PolyCoeff, b: PolyCoeff) -> PolyCoeff {
+    if a.is_empty() || b.is_empty() {
+        return Vec::new();
+    }
     let mut result = vec![Scalar::ZERO; a.len() + b.len() - 1];
     for (i, a_coeff) in a.iter().enumerate() {
         for (j, b_coeff) in b.iter().enumerate() {
-- 
2.43.0


From 4c2c567256606d5add3da731fc27a27728fbbb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:49 +0000
Subject: [PATCH 05/10] fix: FK20Prover ignores commitment key points past the
 polynomial bound

---
 cryptography/kzg_multi_open/src/fk20/prover.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cryptography/kzg_multi_open/src/fk20/prover.rs b/cryptography/kzg_multi_open/src/fk20/prover.rs
index 1158112..17d8521 100644
--- a/cryptography/kzg_multi_open/src/fk20/prover.rs
+++ b/cryptography/kzg_multi_open/src/fk20/prover.rs
@@ -82,10 +82,12 @@ impl FK20Prover {
         // KZG polynomial commitment scheme for opening a polynomial at a single point
         // does not require all of the coefficients of the polynomial to compute
         // the quotient polynomial.
-        let srs_truncated: Vec<_> = commit_key
-            .g1s
-            .clone()
-            .into_iter()
+        //
+        // The commitment key may hold more points than `polynomial_bound`; the extra
+        // points are not a part of the vectors.
+        let srs_truncated: Vec<_> = commit_key.g1s[..polynomial_bound]
+            .iter()
+            .copied()
             .rev()
             .skip(points_per_proof)
             .collect();
-- 
2.43.0


From 845468427580664d4d2034f20bcab22e1755cda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:07 +0000
Subject: [PATCH 06/10] fix: FixedBaseMSMPrecompBLST stays within the sizes
 blst supports

---
 cryptography/bls12_381/src/fixed_base_msm.rs | 29 ++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/cryptography/bls12_381/src/fixed_base_msm.rs b/cryptography/bls12_381/src/fixed_base_msm.rs
index 705f355..54af455 100644
--- a/cryptography/bls12_381/src/fixed_base_msm.rs
+++ b/cryptography/bls12_381/src/fixed_base_msm.rs
@@ -55,7 +55,24 @@ impl FixedBaseMSM {
 
 impl FixedBaseMSMPrecompBLST {
     pub fn new(generators_affine: Vec<G1Affine>, wbits: usize) -> Self {
+        // Outside of this range, which blst documents, it writes past its buffers.
+        assert!(
+            (2..=14).contains(&wbits),
+            "expected the width to be between 2 and 14, found {}",
+            wbits
+        );
+
         let num_points = generators_affine.len();
+        if num_points == 0 {
+            // blst also writes past its buffers when it is given no points
+            return FixedBaseMSMPrecompBLST {
+                table: Vec::new(),
+                wbits,
+                num_points,
+                scratch_space_size: 0,
+            };
+        }
+
         let table_size_bytes =
             unsafe { blst::blst_p1s_mult_wbits_precompute_sizeof(wbits, num_points) };
 
@@ -84,6 +101,18 @@ impl FixedBaseMSMPrecompBLST {
 
     pub fn msm(&self, scalars: Vec<Scalar>) -> G1Projective {
         use ff::PrimeField;
+        use group::Group;
+
+        // blst reads as many scalars as there are points
+        assert_eq!(
+            scalars.len(),
+            self.num_points,
+            "number of generators and scalars should be equal"
+        );
+        if self.num_points == 0 {
+            return G1Projective::identity();
+        }
+
         let mut ret = blst::blst_p1::default();
         const NUM_BITS_SCALAR: usize = Scalar::NUM_BITS as usize;
 
-- 
2.43.0


From 7b1ab6bb98dae46dd53a4f8f89e7938e3e9394a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:19 +0000
Subject: [PATCH 07/10] fix: LibEthKZG frees its context only when no call is
 using it

---
 .../java/ethereum/cryptography/LibEthKZG.java | 54 ++++++++++++++-----
 1 file changed, 42 insertions(+), 12 deletions(-)

diff --git a/bindings/java/java_code/src/main/java/ethereum/cryptography/LibEthKZG.java b/bindings/java/java_code/src/main/java/ethereum/cryptography/LibEthKZG.java
index 5c17e94..b194705 100644
--- a/bindings/java/java_code/src/main/java/ethereum/cryptography/LibEthKZG.java
+++ b/bindings/java/java_code/src/main/java/ethereum/cryptography/LibEthKZG.java
@@ -5,6 +5,8 @@ import java.io.UncheckedIOException;
 import java.nio.file.Files;
 import java.nio.file.Path;
 import java.nio.file.StandardCopyOption;
+import java.util.concurrent.locks.ReadWriteLock;
+import java.util.concurrent.locks.ReentrantReadWriteLock;
 
 /**
  * This class handles the loading of native libraries and provides methods for
@@ -26,6 +28,9 @@ public class LibEthKZG implements AutoCloseable{
 
     private long contextPtr;
 
+    /** Held for reading while the context is in use and for writing while it is being freed. */
+    private final ReadWriteLock contextLock = new ReentrantReadWriteLock();
+
     private static volatile boolean libraryLoaded = false;
     private static final Object libraryLock = new Object();
 
@@ -72,9 +77,14 @@ public class LibEthKZG implements AutoCloseable{
      * This method should be called when the LibEthKZG instance is no longer needed.
      */
     public void destroy() {
-        if (contextPtr != 0) {
-            DASContextDestroy(contextPtr);
-            contextPtr = 0;
+        contextLock.writeLock().lock();
+        try {
+            if (contextPtr != 0) {
+                DASContextDestroy(contextPtr);
+                contextPtr = 0;
+            }
+        } finally {
+            contextLock.writeLock().unlock();
         }
     }
 
@@ -91,8 +101,13 @@ public class LibEthKZG implements AutoCloseable{
      * @return The KZG commitment as a byte array.
      */
     public byte[] blobToKZGCommitment(byte[] blob) {
-        checkContextHasNotBeenFreed();
-        return blobToKZGCommitment(contextPtr, blob);
+        contextLock.readLock().lock();
+        try {
+            checkContextHasNotBeenFreed();
+            return blobToKZGCommitment(contextPtr, blob);
+        } finally {
+            contextLock.readLock().unlock();
+        }
     }
 
     /**
@@ -102,9 +117,14 @@ public class LibEthKZG implements AutoCloseable{
      * @return CellsAndProofs object containing the computed cells and proofs.
      */
     public CellsAndProofs computeCellsAndKZGProofs(byte[] blob) {
-        checkContextHasNotBeenFreed();
-        CellsAndProofs cellsAndProofs = computeCellsAndKZGProofs(contextPtr, blob);
-        return cellsAndProofs;
+        contextLock.readLock().lock();
+        try {
+            checkContextHasNotBeenFreed();
+            CellsAndProofs cellsAndProofs = computeCellsAndKZGProofs(contextPtr, blob);
+            return cellsAndProofs;
+        } finally {
+            contextLock.readLock().unlock();
+        }
     }
 
     /**
@@ -118,8 +138,13 @@ public class LibEthKZG implements AutoCloseable{
      */
     public boolean verifyCellKZGProofBatch(byte[][] commitmentsArr,  long[] cellIndices, byte[][] cellsArr,
             byte[][] proofsArr) {
-                checkContextHasNotBeenFreed();
-        return verifyCellKZGProofBatch(contextPtr, commitmentsArr, cellIndices, cellsArr, proofsArr);
+        contextLock.readLock().lock();
+        try {
+            checkContextHasNotBeenFreed();
+            return verifyCellKZGProofBatch(contextPtr, commitmentsArr, cellIndices, cellsArr, proofsArr);
+        } finally {
+            contextLock.readLock().unlock();
+        }
     }
 
     /**
@@ -130,8 +155,13 @@ public class LibEthKZG implements AutoCloseable{
      * @return CellsAndProofs object containing the recovered cells and proofs.
      */
     public CellsAndProofs recoverCellsAndKZGProofs(long[] cellIDs, byte[][] cellsArr) {
-        checkContextHasNotBeenFreed();
-        return recoverCellsAndKZGProofs(contextPtr, cellIDs, cellsArr);
+        contextLock.readLock().lock();
+        try {
+            checkContextHasNotBeenFreed();
+            return recoverCellsAndKZGProofs(contextPtr, cellIDs, cellsArr);
+        } finally {
+            contextLock.readLock().unlock();
+        }
     }
 
     /*
-- 
2.43.0


From 15784fec0398d1cc0c19b29d62c231f2908a87a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:19 +0000
Subject: [PATCH 08/10] fix: Node binding rejects cell indices that are not
 64-bit unsigned integers

---
 bindings/node/src/lib.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/bindings/node/src/lib.rs b/bindings/node/src/lib.rs
index c55e897..f8ac5eb 100644
--- a/bindings/node/src/lib.rs
+++ b/bindings/node/src/lib.rs
@@ -161,7 +161,10 @@ impl DASContextJs {
     cell_indices: Vec<BigInt>,
     cells: Vec<Uint8Array>,
   ) -> Result<CellsAndProofs> {
-    let cell_indices: Vec<_> = cell_indices.into_iter().map(bigint_to_u64).collect();
+    let cell_indices: Vec<_> = cell_indices
+      .into_iter()
+      .map(bigint_to_u64)
+      .collect::<Result<_, _>>()?;
     let cells: Vec<_> = cells.iter().map(|cell| cell.as_ref()).collect();
 
     let ctx = &self.inner;
@@ -212,7 +215,10 @@ impl DASContextJs {
     cells: Vec<Uint8Array>,
     proofs: Vec<Uint8Array>,
   ) -> Result<bool> {
-    let cell_indices: Vec<_> = cell_indices.into_iter().map(bigint_to_u64).collect();
+    let cell_indices: Vec<_> = cell_indices
+      .into_iter()
+      .map(bigint_to_u64)
+      .collect::<Result<_, _>>()?;
 
     let commitments: Vec<_> = commitments
       .iter()
@@ -253,10 +259,14 @@ impl DASContextJs {
 }
 
 // We use bigint because u64 cannot be used as an argument, see : https://napi.rs/docs/concepts/values.en#bigint
-fn bigint_to_u64(value: BigInt) -> u64 {
-  let (signed, value_u128, _) = value.get_u128();
-  assert!(!signed, "value should be an unsigned integer");
-  value_u128 as u64
+fn bigint_to_u64(value: BigInt) -> Result<u64> {
+  let (_, value, lossless) = value.get_u64();
+  if !lossless {
+    return Err(Error::from_reason(
+      "cell index must be a non-negative integer that fits in 64 bits",
+    ));
+  }
+  Ok(value)
 }
 
 /// Convert a slice into a reference to an array
-- 
2.43.0


From 43c075e35211971e919e7e1dd207e49e8ad12450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:19 +0000
Subject: [PATCH 09/10] fix: Go binding reports native errors and keeps its
 context alive during calls

---
 bindings/golang/prover.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bindings/golang/prover.go b/bindings/golang/prover.go
index 71d763d..e754041 100644
--- a/bindings/golang/prover.go
+++ b/bindings/golang/prover.go
@@ -60,7 +60,13 @@ func (prover *DASContext) BlobToKZGCommitment(blob []byte) ([]byte, error) {
 		return nil, errors.New("invalid blob size")
 	}
 	out := make([]byte, 48)
-	C.eth_kzg_blob_to_kzg_commitment(prover.inner(), (*C.uint8_t)(&blob[0]), (*C.uint8_t)(&out[0]))
+	result := C.eth_kzg_blob_to_kzg_commitment(prover.inner(), (*C.uint8_t)(&blob[0]), (*C.uint8_t)(&out[0]))
+	// The finalizer must not free the context while the call above is using it.
+	runtime.KeepAlive(prover)
+	if result.status != C.Ok {
+		defer C.eth_kzg_free_error_message(result.error_msg)
+		return nil, errors.New(C.GoString(result.error_msg))
+	}
 	return out, nil
 }
 
-- 
2.43.0


From ecee6a4115111bea2d996fa810fef1ea6910a3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:25 +0000
Subject: [PATCH 10/10] fix: Java binding lets the JVM's own pending exception
 through instead of aborting

---
 bindings/java/rust_code/src/lib.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/bindings/java/rust_code/src/lib.rs b/bindings/java/rust_code/src/lib.rs
index e3c0225..99f1e18 100644
--- a/bindings/java/rust_code/src/lib.rs
+++ b/bindings/java/rust_code/src/lib.rs
@@ -267,6 +267,11 @@ fn cells_and_proofs_to_jobject<'local>(
 
 /// Throws an exception in Java
 fn throw_on_error(env: &mut JNIEnv, err: Error, func_name: &'static str) {
+    // When the JVM has raised an exception itself (for example an OutOfMemoryError), it is thrown
+    // once we return and no other exception can be thrown before that.
+    if env.exception_check().unwrap_or(false) {
+        return;
+    }
     let reason = match err {
         Error::Jni(err) => format!("{:?}", err),
         Error::IncorrectSize {
@@ -280,8 +285,11 @@ fn throw_on_error(env: &mut JNIEnv, err: Error, func_name: &'static str) {
         "function {} has thrown an exception, with reason: {}",
         func_name, reason
     );
-    env.throw_new("java/lang/IllegalArgumentException", msg)
-        .expect("Failed to throw exception");
+    match env.throw_new("java/lang/IllegalArgumentException", msg) {
+        // Creating the exception may raise another one
+        Ok(()) | Err(jni::errors::Error::JavaException) => {}
+        Err(err) => panic!("Failed to throw exception: {err:?}"),
+    }
 }
 
 /// Convert a slice into a reference to an array
-- 
2.43.0

