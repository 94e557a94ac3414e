#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=hook)))

prop("P01", "Commitments, cells and proofs are the specified ones for every blob",
 "For every blob of 4096 canonical field elements, blob_to_kzg_commitment returns the KZG commitment of the polynomial that takes the blob's values on the bit-reversed 4096-point domain, and compute_cells_and_kzg_proofs returns the 128 cells holding that polynomial's values on the 128 specified cosets (so the first 64 cells are the blob itself) and, for each cell, the KZG multi-opening proof of exactly that cell. Both calls succeed on every such blob, whatever its structure (zero, constant, sparse, low degree, extreme values).",
 ["inputs"], "all canonical blobs (255-bit values in 4096 positions), all trusted setups of the right size",
 "The tests replay about 5 valid blobs from the consensus vectors; a defect that needs a particular polynomial structure (zero top half, all-equal elements, a coefficient with a rare digit pattern) or a particular position is invisible to them.",
 ["eip7594/src/prover.rs", "eip7594/src/serialization.rs", "cryptography/kzg_multi_open/src/fk20/prover.rs", "cryptography/kzg_multi_open/src/fk20/h_poly.rs", "cryptography/kzg_multi_open/src/fk20/batch_toeplitz.rs", "cryptography/kzg_multi_open/src/fk20/toeplitz.rs", "cryptography/kzg_multi_open/src/fk20/cosets.rs", "cryptography/kzg_multi_open/src/commit_key.rs"],
 [("FK20 Toeplitz/FFT proof computation", "cryptography/kzg_multi_open/src/fk20/prover.rs compute_multi_opening_proofs"), ("bit-reversal of blob data and cosets", "cryptography/kzg_multi_open/src/fk20/cosets.rs")],
 ["DASContext::blob_to_kzg_commitment", "DASContext::compute_cells_and_kzg_proofs"])

prop("P02", "Results do not depend on precomputation, threads or build features",
 "For the same trusted setup and the same request, every way of configuring the library (precomputation off or on with any table width, one thread or any number of threads, the singlethreaded, multithreaded and default feature builds) gives byte-identical commitments, cells and proofs, the same recovered data and the same accept/reject/error verdicts.",
 ["configurations", "inputs"], "all precomputation widths that fit in memory x thread counts x feature builds x requests, including requests whose polynomials hit the window/digit boundaries of the table method",
 "The consensus-vector tests use one configuration (default features: single thread, no precomputation); widths are only smoke-tested with random scalars, which reach digit-boundary and zero-digit cases with negligible probability.",
 ["eip7594/src/lib.rs", "eip7594/src/macros.rs", "cryptography/bls12_381/src/fixed_base_msm.rs", "cryptography/bls12_381/src/fixed_base_msm_window.rs", "cryptography/bls12_381/src/booth_encoding.rs", "maybe_rayon/src/single_threaded.rs", "maybe_rayon/src/multi_threaded.rs", "cryptography/kzg_multi_open/src/fk20/batch_toeplitz.rs"],
 [("choice between variable-base and window-table MSM", "cryptography/bls12_381/src/fixed_base_msm.rs FixedBaseMSM"), ("maybe_rayon wrappers", "maybe_rayon/src")],
 ["DASContext API results under each configuration"])

prop("P03", "Any 64 or more distinct genuine cells recover the whole blob's data",
 "For every canonical blob, every set of at least 64 distinct cell indices and every order in which the corresponding genuine cells are supplied, recover_cells_and_kzg_proofs succeeds and returns exactly the 128 cells and 128 proofs that compute_cells_and_kzg_proofs returns for that blob.",
 ["inputs"], "all erasure patterns (subsets of 128 of size 64..128), all supply orders, all canonical blobs",
 "The vectors contain a handful of erasure patterns (first half, second half, every other, none missing), in ascending order; there are about 2^127 admissible patterns times orders.",
 ["eip7594/src/recovery.rs", "eip7594/src/prover.rs", "cryptography/erasure_codes/src/reed_solomon.rs", "cryptography/kzg_multi_open/src/fk20/cosets.rs"],
 [("domain-order permutation of supplied cells", "cryptography/kzg_multi_open/src/fk20/cosets.rs recover_evaluations_in_domain_order"), ("vanishing-polynomial erasure decoding", "cryptography/erasure_codes/src/reed_solomon.rs recover_polynomial_coefficient")],
 ["DASContext::recover_cells_and_kzg_proofs"])

prop("P04", "Recovery never turns bad input into data: inconsistent requests fail",
 "Recovery returns data only if that data agrees with every supplied cell and is a degree-below-4096 codeword: a request whose cells (more than 64 of them) do not all lie on one such polynomial, or that has fewer than 64 cells, more than 128, duplicate or out-of-range indices, mismatched lengths or a non-canonical field element, returns an error and never cells or proofs. With exactly 64 canonical cells, whatever their contents, the returned cells contain the supplied ones unchanged.",
 ["inputs"], "all corruptions (any cell, element, bit, number of corrupted cells) of all erasure patterns, and all malformed requests",
 "The vectors contain a few malformed requests and no corrupted-but-canonical cells at all; which element of which cell is corrupted and with which pattern of erasures is unsampled.",
 ["eip7594/src/recovery.rs", "eip7594/src/serialization.rs", "cryptography/erasure_codes/src/reed_solomon.rs"],
 [("request validation", "eip7594/src/recovery.rs validation::recover_polynomial_coeff"), ("degree check of the decoded polynomial", "cryptography/erasure_codes/src/reed_solomon.rs recover_polynomial_coefficient")],
 ["DASContext::recover_cells_and_kzg_proofs"])

prop("P05", "Every batch of genuine cells verifies",
 "verify_cell_kzg_proof_batch accepts every batch made of genuine (commitment, cell index, cell, proof) tuples: any batch size including zero and one, any mixture of blobs and cell indices, any order, any repetition of tuples or commitments, and blobs whose commitment or proofs are the point at infinity.",
 ["inputs"], "all multisets and orders of genuine tuples over all blobs and all 128 cell indices",
 "The vectors hold fewer than ten accepting batches; combinations of batch size, commitment repetition pattern, index order and point-at-infinity members are unsampled.",
 ["eip7594/src/verifier.rs", "cryptography/kzg_multi_open/src/fk20/verifier.rs", "cryptography/bls12_381/src/lincomb.rs", "cryptography/bls12_381/src/lib.rs"],
 [("commitment de-duplication", "eip7594/src/verifier.rs deduplicate_with_indices"), ("random-linear-combination pairing check", "cryptography/kzg_multi_open/src/fk20/verifier.rs verify_multi_opening")],
 ["DASContext::verify_cell_kzg_proof_batch"])

prop("P06", "A batch with any false tuple is rejected",
 "If at least one tuple of a well-formed batch is false (its cell is not the committed polynomial's values on the coset of its index with a matching proof), verify_cell_kzg_proof_batch reports an invalid proof, whichever tuple it is, whatever was altered (any cell element, proof, commitment or index, or swaps between tuples), however many are false, and however the errors relate to each other (including errors that cancel when tuples are summed with equal or small weights). The batch verdict is the conjunction of the verdicts of its tuples on their own.",
 ["inputs"], "all well-formed batches containing false tuples, including adversarially correlated ones",
 "The vectors contain single-fault batches (one wrong commitment, cell or proof); correlated faults that cancel in a sum, and faults at a specific place of a large batch, are not among them.",
 ["eip7594/src/verifier.rs", "cryptography/kzg_multi_open/src/fk20/verifier.rs", "cryptography/kzg_multi_open/src/verification_key.rs", "cryptography/bls12_381/src/lincomb.rs", "cryptography/bls12_381/src/lib.rs"],
 [("random weights r^k on every term of the batch equation", "cryptography/kzg_multi_open/src/fk20/verifier.rs verify_multi_opening")],
 ["DASContext::verify_cell_kzg_proof_batch"])

prop("P07", "Batch randomness is bound to the whole statement being verified",
 "The randomness that batch verification uses to combine tuples is a deterministic function of the entire request: changing any commitment, any tuple's commitment assignment, any cell index, any cell element or any proof changes it. An adversary who chooses any one of these after learning the randomness for the rest can therefore not make a false batch verify.",
 ["inputs"], "all pairs of distinct requests; all adaptive adversaries that know the verifier's algorithm",
 "No test looks at the randomness: dropping a component from the transcript leaves every honest and every non-adaptive faulty batch with the same verdict.",
 ["cryptography/kzg_multi_open/src/fk20/verifier.rs", "cryptography/bls12_381/src/lib.rs"],
 [("Fiat-Shamir transcript", "cryptography/kzg_multi_open/src/fk20/verifier.rs compute_fiat_shamir_challenge"), ("hash-to-scalar reduction", "cryptography/bls12_381/src/lib.rs reduce_bytes_to_scalar_bias")],
 ["verdict of DASContext::verify_cell_kzg_proof_batch on adaptively forged batches", "the challenge recorded by the hook"],
 hook="cfg(verif_hooks): records the batching challenge computed by verify_multi_opening")

prop("P08", "Untrusted bytes: only canonical encodings are accepted, errors are typed",
 "Every public operation is total on untrusted bytes: it returns a value or an error and never panics or hangs. A field element encoding is accepted exactly when it is below the group order, a commitment or proof encoding exactly when it is the canonical compressed encoding of a point of the prime-order subgroup (infinity included), an index exactly when it is below 128; anything else, and any length mismatch, yields an input error that does not report itself as an invalid proof, no matter at which position it occurs.",
 ["inputs"], "all byte strings in every argument position of every operation",
 "The vectors hold a few invalid field elements and points, at fixed positions; boundary values, wrong flag combinations, points outside the subgroup and the position of the bad item are sampled only once or not at all.",
 ["eip7594/src/serialization.rs", "eip7594/src/errors.rs", "eip7594/src/verifier.rs", "eip7594/src/recovery.rs"],
 [("checked deserialisation", "eip7594/src/serialization.rs"), ("error classification", "eip7594/src/errors.rs Error::invalid_proof")],
 ["Result of each DASContext operation", "panic hook"])

prop("P09", "A shared context is stateless and safe to use from many threads",
 "The result of a call on a context depends only on the context's trusted setup and the call's arguments: not on earlier calls (including failing ones), nor on calls running at the same time on the same or other contexts, on caller threads or inside other thread pools. Concurrent calls never race on memory, deadlock or crash, and every call terminates.",
 ["schedules", "histories"], "all interleavings of calls from any number of threads on shared contexts; all call histories",
 "Every test makes calls one after another on a fresh or single context; no test runs two calls concurrently, and none compares a call's result after a history with its result on a fresh context.",
 ["eip7594/src/lib.rs", "eip7594/src/macros.rs", "maybe_rayon/src/multi_threaded.rs", "cryptography/bls12_381/src/lincomb.rs", "cryptography/bls12_381/src/fixed_base_msm_window.rs"],
 [("immutable context, per-context rayon pool", "eip7594/src/lib.rs DASContext"), ("thread-pool install", "eip7594/src/macros.rs with_optional_threadpool")],
 ["call/return events of DASContext methods recorded at the client", "ThreadSanitizer reports"],
 state=[("thread_pool", "pool owned by a context; calls are installed on it", "eip7594/src/lib.rs")])

prop("P10", "Contexts and calls release what they take",
 "Creating, using and dropping contexts any number of times, through calls that succeed or fail, leaves no memory and no threads behind; a long-lived context's memory does not grow with the number of calls. A context starts only the number of worker threads that was asked for, and the calls do their work on those threads.",
 ["histories", "configurations"], "all histories of context creation, calls (succeeding and failing) and destruction; all requested thread counts",
 "No test measures memory or threads; leaks are invisible to result-comparing tests.",
 ["eip7594/src/lib.rs", "eip7594/src/macros.rs", "bindings/c/src/lib.rs", "cryptography/bls12_381/src/fixed_base_msm_window.rs"],
 [("ownership of the pool and tables by the context", "eip7594/src/lib.rs"), ("context free function", "bindings/c/src/lib.rs eth_kzg_das_context_free")],
 ["counting allocator", "thread census of the process", "LeakSanitizer / valgrind"])

prop("P11", "The C interface touches only the memory its contract names",
 "For every call that meets the documented pointer contract, the C interface reads only inside the caller's input regions, writes only inside the output regions named for that call, with exact sizes and any alignment or layout of the individual buffers, never modifies inputs, and has no undefined behaviour; with a zero length the corresponding pointer may be null. When a call reports an error, no output region has been written.",
 ["inputs", "histories"], "all argument layouts (buffers ending at a page boundary, scattered, adjacent, shared between inputs), sizes, success and error calls",
 "No test calls the C functions from outside at all except one Go smoke test; nothing detects an out-of-bounds read or write or an aliasing violation.",
 ["bindings/c/src/pointer_utils.rs", "bindings/c/src/lib.rs", "bindings/c/src/blob_to_kzg_commitment.rs", "bindings/c/src/compute_cells_and_kzg_proofs.rs", "bindings/c/src/recover_cells_and_kzg_proofs.rs", "bindings/c/src/verify_cells_and_kzg_proofs_batch.rs"],
 [("raw pointer views", "bindings/c/src/pointer_utils.rs")],
 ["guard pages, canaries and read-only mappings around every buffer", "AddressSanitizer", "valgrind memcheck", "Miri"])

prop("P12", "The C interface returns exactly the core library's results and errors",
 "Each C function delivers, for every input, the same outputs and the same valid/invalid/error outcome as the corresponding library operation: status Ok with a null message and the outputs filled in, or status Err with a non-empty NUL-terminated UTF-8 message that the caller owns and frees exactly once. An invalid proof is status Ok with verified=false, a malformed input is status Err; freeing null is a no-op and the exported constants and the generated header match the functions.",
 ["inputs", "histories"], "all inputs, valid and invalid, of every exported function; all call sequences",
 "No test in the repository exercises the C functions beyond one smoke call from Go that ignores its results.",
 ["bindings/c/src/lib.rs", "bindings/c/src/blob_to_kzg_commitment.rs", "bindings/c/src/compute_cells_and_kzg_proofs.rs", "bindings/c/src/recover_cells_and_kzg_proofs.rs", "bindings/c/src/verify_cells_and_kzg_proofs_batch.rs", "bindings/c/build.rs"],
 [("CResult construction", "bindings/c/src/lib.rs CResult"), ("verdict mapping", "bindings/c/src/lib.rs verification_result_to_bool_cresult")],
 ["outputs, status and message of each eth_kzg_* call"])

prop("P13", "The Java binding is a faithful, crash-free view of the library",
 "For every argument a Java program can pass to an open instance, including null, wrongly sized or ragged arrays and negative indices, each LibEthKZG method returns exactly what the core library returns for the same bytes, returns false for an invalid proof, and throws IllegalArgumentException for malformed input; it never crashes the JVM, never modifies its arguments and never leaks native memory. When the JVM's own heap is exhausted its OutOfMemoryError reaches the caller. After destroy()/close(), calls throw IllegalStateException and further destroy() calls do nothing; instances may be shared between threads, including while another thread closes them (a call then either completes or throws IllegalStateException).",
 ["inputs", "histories", "schedules"], "all argument values, lifecycles and concurrent uses of a LibEthKZG instance",
 "The Java tests (which do not run here) only replay the consensus vectors; null, ragged and wrong-size arguments, use after destroy and concurrent use are not sampled.",
 ["bindings/java/rust_code/src/lib.rs", "bindings/java/rust_code/src/errors.rs", "bindings/java/java_code/src/main/java/ethereum/cryptography/LibEthKZG.java", "bindings/java/java_code/src/main/java/ethereum/cryptography/CellsAndProofs.java"],
 [("JNI conversions and exception mapping", "bindings/java/rust_code/src/lib.rs"), ("destroyed-context guard", "bindings/java/java_code/src/main/java/ethereum/cryptography/LibEthKZG.java checkContextHasNotBeenFreed")],
 ["return values and exceptions of LibEthKZG methods", "-Xcheck:jni output", "JVM exit status"])

prop("P14", "The Node binding is a faithful, crash-free view of the library",
 "For every argument a JavaScript program can pass, each method of the Node context, synchronous or asynchronous, returns (or resolves to) exactly what the core library returns for the same bytes, false for an invalid proof, and throws (or rejects with) an error for malformed input, including BigInt indices that are negative or do not fit 64 bits, which are never silently turned into a different index. It never aborts the process and never modifies its arguments, and synchronous and asynchronous forms agree under concurrent use. (Not covered: buffers the program changes or detaches while an asynchronous call is reading them.)",
 ["inputs", "schedules"], "all argument values; all interleavings of asynchronous calls",
 "The jest tests (which do not run here) only replay the consensus vectors with in-range indices.",
 ["bindings/node/src/lib.rs", "bindings/node/index.js"],
 [("argument conversion", "bindings/node/src/lib.rs bigint_to_u64, slice_to_array_ref"), ("verdict mapping", "bindings/node/src/lib.rs verify_cell_kzg_proof_batch")],
 ["values, exceptions and promise outcomes of the native module", "process exit status"])

prop("P15", "The Go binding reports failures and keeps its context alive",
 "For every byte slice, the Go BlobToKZGCommitment returns the core library's commitment with a nil error or, when the blob has the wrong size or is malformed, a nil commitment with a non-nil error; it never returns a made-up commitment. The native context stays valid for the whole of every call whenever the garbage collector runs, and is released once it is unreachable, with no memory leaked by failing calls. (Contexts come from NewProverContext; a zero-valued struct is not a context.)",
 ["inputs", "schedules", "histories"], "all blobs; all garbage-collection points; all call histories and concurrent callers",
 "The single Go test makes one call on one valid blob and ignores both results; the garbage collector never runs during it.",
 ["bindings/golang/prover.go"],
 [("status handling and finalizer", "bindings/golang/prover.go")],
 ["return values of BlobToKZGCommitment", "native context liveness seen by an interposed C library"])

prop("P16", "Trusted setups are parsed faithfully and checked; the built-in one is right",
 "Loading a trusted setup from JSON with checking accepts exactly the setups whose monomial points are all canonical encodings of prime-order-subgroup points, and rejects (by panicking at load time) any setup with a malformed, off-curve or wrong-subgroup monomial point at any position, or with too few of them for the verifier; the points are used in the order given, so commitments and verification follow the supplied setup. The built-in setup is a well-formed powers-of-tau string: consecutive powers of one secret in both groups, with the Lagrange points matching the monomial ones, and contexts created by default use it.",
 ["inputs", "configurations"], "all JSON setups (position and kind of any defect); the 4096 + 4096 + 65 embedded points",
 "The one test checks that loading the embedded setup does not panic; no setup with a defect and no other setup is ever loaded, and the power structure of the points is never checked.",
 ["eip7594/src/trusted_setup.rs", "eip7594/data/trusted_setup_4096.json", "cryptography/kzg_multi_open/src/commit_key.rs", "cryptography/kzg_multi_open/src/verification_key.rs"],
 [("parsing and subgroup checks", "eip7594/src/trusted_setup.rs")],
 ["TrustedSetup::from_json and from_json_unchecked outcomes", "results of contexts built on custom setups"])

prop("P17", "Group kernels: every multi-scalar multiplication equals the naive sum",
 "For every list of subgroup points and equally long list of scalars, the safe linear-combination routines return exactly the sum of scalar times point, for any length including zero, one and non-powers of two, with zero, one, minus-one and extreme scalars and with repeated, opposite and infinity points; the variants that exclude infinity do the same for non-empty lists without it, and all of them return nothing when the lengths differ. Fixed-base multi-scalar multiplication does the same for every supported table width, precomputed or not, over non-infinity bases none of whose window sums are opposite (the documented domain of the batch addition), and never reads or writes outside its buffers: a width or length it cannot serve is refused. Batch normalisation, batch point addition within that domain and batch inversion of non-zero elements agree with the one-at-a-time computation; reducing 32 bytes to a field element and the pairing product check agree with their definitions.",
 ["inputs", "configurations"], "all lengths, scalars, points and widths",
 "The unit tests sample random scalars at one or two lengths and widths; digit boundaries, structured scalars, special points and odd lengths are not reached by random sampling.",
 ["cryptography/bls12_381/src/lincomb.rs", "cryptography/bls12_381/src/fixed_base_msm.rs", "cryptography/bls12_381/src/fixed_base_msm_window.rs", "cryptography/bls12_381/src/booth_encoding.rs", "cryptography/bls12_381/src/batch_addition.rs", "cryptography/bls12_381/src/batch_inversion.rs", "cryptography/bls12_381/src/lib.rs"],
 [("Booth-encoded window tables", "cryptography/bls12_381/src/fixed_base_msm_window.rs"), ("Pippenger calls with infinity filtering", "cryptography/bls12_381/src/lincomb.rs")],
 ["results of lincomb::g1_lincomb, g2_lincomb, FixedBaseMSM::msm, batch_inverse, multi_batch_addition_binary_stride, g1_batch_normalize"])

prop("P18", "Polynomial and FFT routines obey the algebra they implement",
 "For every power-of-two domain and every coefficient vector no longer than the domain, the forward transform returns the polynomial's values at successive powers of the domain's root of unity, the inverse transform undoes it, the coset forms do the same on the shifted domain, and the group-valued transforms act as the same linear maps on points. Polynomial addition, subtraction, negation, multiplication, evaluation, interpolation and vanishing-polynomial construction satisfy their defining identities for all operand lengths, including empty operands.",
 ["inputs"], "all domain sizes, vector lengths and values",
 "The unit tests use a few fixed sizes and small sequential values; sizes one and two, short inputs that need padding, zero operands and group elements at infinity are not sampled.",
 ["cryptography/polynomial/src/domain.rs", "cryptography/polynomial/src/fft.rs", "cryptography/polynomial/src/poly_coeff.rs", "cryptography/polynomial/src/coset_fft.rs"],
 [("radix-2 transforms", "cryptography/polynomial/src/fft.rs"), ("domain construction and padding", "cryptography/polynomial/src/domain.rs")],
 ["results of Domain and poly_coeff functions"])

prop("P19", "The erasure code recovers up to its bound and detects what is not a codeword",
 "For every admissible code (power-of-two polynomial length, expansion factor and block size), every polynomial and every set of erased blocks leaving at least as many evaluations as coefficients, decoding the encoded and erased word returns exactly the polynomial's coefficients; erasing more is an error. A word whose surviving evaluations do not agree with any polynomial of the admissible length is reported as an error, never decoded.",
 ["inputs", "configurations"], "all code parameters, polynomials, erasure patterns and corruptions",
 "Unit tests use one parameter set with leading or random erasures and no corrupted codeword.",
 ["cryptography/erasure_codes/src/reed_solomon.rs", "cryptography/erasure_codes/src/errors.rs"],
 [("vanishing polynomial of block-synchronised erasures and coset division", "cryptography/erasure_codes/src/reed_solomon.rs")],
 ["results of ReedSolomon::encode and recover_polynomial_coefficient"])

prop("P20", "Multi-opening proofs are complete and sound for every parameter choice",
 "For every power-of-two polynomial length, coset size and number of cosets and every setup, the multi-opening prover's evaluations and proofs for every coset equal the ones given by the definition, with and without precomputation and for data and coefficient inputs alike, and the multi-opening verifier accepts them and rejects any altered statement. Reassembling coset evaluations into domain order is the exact inverse of the distribution the prover uses, for any subset and order of cosets.",
 ["inputs", "configurations"], "all parameter combinations, polynomials, cosets, subsets and orders",
 "Unit tests fix one parameter set (4096, 64, 8192) and compare with another in-tree implementation that shares helpers.",
 ["cryptography/kzg_multi_open/src/fk20/prover.rs", "cryptography/kzg_multi_open/src/fk20/verifier.rs", "cryptography/kzg_multi_open/src/fk20/cosets.rs", "cryptography/kzg_multi_open/src/fk20/batch_toeplitz.rs", "cryptography/kzg_multi_open/src/fk20/h_poly.rs", "cryptography/kzg_multi_open/src/lib.rs"],
 [("FK20 prover and verifier", "cryptography/kzg_multi_open/src/fk20")],
 ["results of Prover::commit, Prover::compute_multi_opening_proofs, Verifier::verify_multi_opening, recover_evaluations_in_domain_order"])

prop("P21", "The C# and Nim bindings are faithful views of the library",
 "For every argument, the C# and Nim wrappers return exactly what the core library returns for the same bytes, signal malformed input as an exception or error result, keep managed memory fixed for the duration of each native call, and release native contexts exactly once.",
 ["inputs", "schedules"], "all argument values; all garbage-collection points",
 "Their tests replay the consensus vectors and need toolchains that are not installed here.",
 ["bindings/csharp/csharp_code/EthKZG.bindings/ethkzg.cs", "bindings/nim/nim_code/nim_eth_kzg/nim_eth_kzg.nim"],
 [("marshalling", "bindings/csharp/csharp_code/EthKZG.bindings/ethkzg.cs"), ("marshalling", "bindings/nim/nim_code/nim_eth_kzg/nim_eth_kzg.nim")],
 ["return values of the wrappers"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
